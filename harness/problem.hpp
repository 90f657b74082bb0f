// Problems whose matrices are exact: on every cell the graph Laplacian of the
// cell's edges times an integer coefficient, plus an integer multiple of the
// identity, everything times a power of two (unit).
#ifndef VERIF_PROBLEM_HPP
#define VERIF_PROBLEM_HPP
#include "mesh.hpp"

#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>

#include <deal.II/dofs/dof_accessor.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>

#include <chrono>
#include <set>
#include <thread>

namespace vh
{
using V = dealii::LinearAlgebra::distributed::Vector<double>;
using TM = dealii::TrilinosWrappers::SparseMatrix;

template <int dim>
struct Problem
{
  int coef, mass, dirichlet;
  double unit;
  std::set<long> given; // places of the vertices where the solution is given
  std::vector<long> delay; // milliseconds, by position of the first cell
  std::unique_ptr<dealii::Triangulation<dim>> tria;
  dealii::FE_Q<dim> fe{1};
  std::unique_ptr<dealii::DoFHandler<dim>> dh;
  dealii::AffineConstraints<double> constraints;

  explicit Problem(Scenario const &s)
      : coef(s.get("coef", 0)), mass(s.get("mass", 0)),
        dirichlet(s.get("dirichlet", 0)),
        unit(std::ldexp(1., -s.get("unit", 3))), delay(ilist(s, "delay")),
        tria(make_mesh<dim>(s.get_child("mesh")))
  {
    // boundary 1: where the solution is given (1: on one side, 2: everywhere)
    for (auto c : tria->active_cell_iterators())
      for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        if (c->face(f)->at_boundary())
          c->face(f)->set_boundary_id(
              dirichlet == 2 || (dirichlet == 1 && c->face(f)->center()[0] < .01)
                  ? 1
                  : 2);
    std::vector<long> mine;
    for (auto c : tria->active_cell_iterators())
      if (c->is_locally_owned())
        for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell;
             ++f)
          if (c->face(f)->at_boundary() && c->face(f)->boundary_id() == 1)
            for (unsigned int v = 0;
                 v < dealii::GeometryInfo<dim>::vertices_per_face; ++v)
              mine.push_back(spot(c->face(f)->vertex(v)));
    for (auto const &all :
         dealii::Utilities::MPI::all_gather(MPI_COMM_WORLD, mine))
      given.insert(all.begin(), all.end());
    dh = std::make_unique<dealii::DoFHandler<dim>>(*tria);
    dh->distribute_dofs(fe);
    constrain(*dh, constraints);
  }
  // whoever touches a vertex of the boundary knows the value there, also a cell
  // that has no face on it
  void constrain(dealii::DoFHandler<dim> const &d,
                 dealii::AffineConstraints<double> &c) const
  {
    dealii::IndexSet relevant;
    dealii::DoFTools::extract_locally_relevant_dofs(d, relevant);
    c.clear();
    c.reinit(relevant);
    for (auto cell : d.active_cell_iterators())
      if (!cell->is_artificial())
        for (unsigned int v = 0;
             v < dealii::GeometryInfo<dim>::vertices_per_cell; ++v)
          if (given.count(spot(cell->vertex(v))))
            c.add_line(cell->vertex_dof_index(v, 0));
    c.close();
  }
  static long place(dealii::Point<dim> const &p)
  {
    double h = 0;
    for (int d = 0; d < dim; ++d)
      h += (p[d] + 4.) * (d == 0 ? 16. : d == 1 ? 56. : 176.);
    return std::lround(h);
  }
  static long spot(dealii::Point<dim> const &p)
  {
    long h = 0;
    for (int d = 0; d < dim; ++d)
      h = h * 1000003 + std::lround(p[d] * 4096.);
    return h;
  }
  int weight(dealii::Point<dim> const &center) const
  {
    if (coef == 0)
      return 1;
    unsigned long const h = place(center) * 2654435761ul + coef;
    if (coef == 3) // high contrast
      return (h >> 16) % 2 ? 127 : 1;
    return 1 + (h >> 16) % (coef == 1 ? 2 : 4);
  }
  // the element matrix in units
  dealii::FullMatrix<double> element(int c) const
  {
    unsigned int const n = dealii::GeometryInfo<dim>::vertices_per_cell;
    dealii::FullMatrix<double> k(n, n);
    for (unsigned int l = 0; l < dealii::GeometryInfo<dim>::lines_per_cell; ++l)
    {
      auto const a = dealii::GeometryInfo<dim>::line_to_cell_vertices(l, 0),
                 b = dealii::GeometryInfo<dim>::line_to_cell_vertices(l, 1);
      k(a, a) += c;
      k(b, b) += c;
      k(a, b) -= c;
      k(b, a) -= c;
    }
    for (unsigned int i = 0; i < n; ++i)
      k(i, i) += mass;
    k *= unit;
    return k;
  }
  template <typename Matrix>
  void assemble(dealii::DoFHandler<dim> const &d,
                dealii::AffineConstraints<double> const &c, Matrix &m) const
  {
    std::vector<dealii::types::global_dof_index> ids(fe.dofs_per_cell);
    for (auto cell : d.active_cell_iterators())
      if (cell->is_locally_owned())
      {
        cell->get_dof_indices(ids);
        c.distribute_local_to_global(element(weight(cell->center())), ids, m);
      }
  }
  void global(TM &m) const
  {
    dealii::IndexSet relevant;
    dealii::DoFTools::extract_locally_relevant_dofs(*dh, relevant);
    dealii::TrilinosWrappers::SparsityPattern sp(
        dh->locally_owned_dofs(), dh->locally_owned_dofs(), relevant,
        MPI_COMM_WORLD);
    dealii::DoFTools::make_sparsity_pattern(
        *dh, sp, constraints, false,
        dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD));
    sp.compress();
    m.reinit(sp);
    assemble(*dh, constraints, m);
    m.compress(dealii::VectorOperation::add);
  }
  void local(dealii::DoFHandler<dim> &d, dealii::AffineConstraints<double> &c,
             dealii::SparsityPattern &sp, dealii::SparseMatrix<double> &m) const
  {
    if (!delay.empty())
    {
      auto const ms =
          delay[place(d.get_triangulation().begin_active()->center()) %
                delay.size()];
      std::this_thread::sleep_for(std::chrono::milliseconds(ms));
    }
    d.distribute_dofs(fe);
    constrain(d, c);
    dealii::DynamicSparsityPattern dsp(d.n_dofs());
    dealii::DoFTools::make_sparsity_pattern(d, dsp, c);
    sp.copy_from(dsp);
    m.reinit(sp);
    assemble(d, c, m);
  }
};

// the problem as the user of the matrix-based library gives it ...
template <int dim>
class MatrixEvaluator : public mfmg::DealIIMeshEvaluator<dim>
{
public:
  MatrixEvaluator(Problem<dim> &p)
      : mfmg::DealIIMeshEvaluator<dim>(*p.dh, p.constraints), p(p)
  {
  }
  void evaluate_global(dealii::DoFHandler<dim> &,
                       dealii::AffineConstraints<double> &,
                       TM &m) const override
  {
    p.global(m);
  }
  void evaluate_agglomerate(dealii::DoFHandler<dim> &d,
                            dealii::AffineConstraints<double> &c,
                            dealii::SparsityPattern &sp,
                            dealii::SparseMatrix<double> &m) const override
  {
    p.local(d, c, sp, m);
  }
  Problem<dim> &p;
};

// ... and of the matrix-free one
template <int dim>
class FreeEvaluator : public mfmg::DealIIMatrixFreeMeshEvaluator<dim>
{
public:
  FreeEvaluator(Problem<dim> &p)
      : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(*p.dh, p.constraints), p(p),
        matrix(std::make_shared<TM>())
  {
    p.global(*matrix);
  }
  FreeEvaluator(FreeEvaluator const &o)
      : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(*o.p.dh, o.p.constraints),
        p(o.p), matrix(o.matrix)
  {
  }
  std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>
  clone() const override
  {
    return std::make_unique<FreeEvaluator>(*this);
  }
  void evaluate_global(dealii::DoFHandler<dim> &,
                       dealii::AffineConstraints<double> &,
                       TM &m) const override
  {
    p.global(m);
  }
  void matrix_free_initialize_agglomerate(
      dealii::DoFHandler<dim> &d) const override
  {
    lm.clear();
    p.local(d, lc, sp, lm);
  }
  void matrix_free_evaluate_agglomerate(
      dealii::Vector<double> const &src,
      dealii::Vector<double> &dst) const override
  {
    lm.vmult(dst, src);
  }
  std::vector<double> matrix_free_get_agglomerate_diagonal(
      dealii::AffineConstraints<double> &c) const override
  {
    c.copy_from(lc);
    std::vector<double> d(lm.m());
    for (unsigned int i = 0; i < d.size(); ++i)
      d[i] = lm.diag_element(i);
    return d;
  }
  void matrix_free_evaluate_global(V const &src, V &dst) const override
  {
    matrix->vmult(dst, src);
  }
  std::shared_ptr<dealii::DiagonalMatrix<V>>
  matrix_free_get_diagonal_inverse() const override
  {
    auto r = std::make_shared<dealii::DiagonalMatrix<V>>();
    V v(p.dh->locally_owned_dofs(), MPI_COMM_WORLD);
    for (auto i : p.dh->locally_owned_dofs())
      v[i] = 1. / matrix->diag_element(i);
    v.compress(dealii::VectorOperation::insert);
    r->reinit(v);
    return r;
  }
  V get_diagonal() override
  {
    dealii::IndexSet relevant;
    dealii::DoFTools::extract_locally_relevant_dofs(*p.dh, relevant);
    V v(p.dh->locally_owned_dofs(), relevant, MPI_COMM_WORLD);
    for (auto i : p.dh->locally_owned_dofs())
      v.local_element(v.get_partitioner()->global_to_local(i)) =
          matrix->diag_element(i);
    v.update_ghost_values();
    return v;
  }
  Problem<dim> &p;
  std::shared_ptr<TM> matrix;
  mutable dealii::AffineConstraints<double> lc;
  mutable dealii::SparsityPattern sp;
  mutable dealii::SparseMatrix<double> lm;
};

// the rows of a matrix that this processor holds, entries times scale
inline Rec rows_of(TM const &m, double scale, bool is_exact)
{
  std::vector<std::vector<std::pair<long, long>>> r;
  std::vector<long> ids, dom;
  for (auto i : m.locally_owned_range_indices())
  {
    ids.push_back(i);
    r.emplace_back();
    for (auto it = m.begin(i); it != m.end(i); ++it)
    {
      long const v = is_exact ? exact(it->value(), scale)
                              : fixed(it->value(), scale);
      if (v != 0)
        r.back().push_back({long(it->column()), v});
    }
  }
  for (auto i : m.locally_owned_domain_indices())
    dom.push_back(i);
  Rec o;
  o("m", long(m.m()))("n", long(m.n()))("ids", ids)("dom", dom)("rows", r);
  return o;
}
} // namespace vh
#endif

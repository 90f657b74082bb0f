// The restriction matrix assembled from given eigenvectors and diagonals.
#include "mesh.hpp"

#include <mfmg/common/amge.hpp>

#include <deal.II/dofs/dof_tools.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>

#include <random>

using V = dealii::LinearAlgebra::distributed::Vector<double>;
using M = dealii::TrilinosWrappers::SparseMatrix;

namespace
{
// the rows this processor owns: for each, [column, value * scale] pairs
vh::Rec rows(M const &m, double scale)
{
  std::vector<std::vector<std::pair<long, long>>> r;
  auto const range = m.local_range();
  for (auto i = range.first; i < range.second; ++i)
  {
    r.emplace_back();
    for (auto it = m.begin(i); it != m.end(i); ++it)
      r.back().push_back({long(it->column()), vh::exact(it->value(), scale)});
  }
  vh::Rec o;
  o("first", long(range.first))("last", long(range.second))("m", long(m.m()))(
      "n", long(m.n()))("rows", r);
  std::vector<long> dom;
  for (auto i : m.locally_owned_domain_indices())
    dom.push_back(i);
  o("domain", dom);
  return o;
}

template <int dim>
void body(vh::Scenario const &s, vh::Out &o)
{
  auto tria = vh::make_mesh<dim>(s.get_child("mesh"));
  dealii::FE_Q<dim> fe(s.get("degree", 1));
  dealii::DoFHandler<dim> dh(*tria);
  dh.distribute_dofs(fe);
  mfmg::AMGe<dim, V> amge(MPI_COMM_WORLD, dh);
  int const rank = dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);

  // wide: powers of two up to 1024, local diagonals close to the global ones
  bool const wide = s.get("wide", 0);
  dealii::IndexSet relevant;
  dealii::DoFTools::extract_locally_relevant_dofs(dh, relevant);
  V diag(dh.locally_owned_dofs(), relevant, MPI_COMM_WORLD);
  for (auto i : dh.locally_owned_dofs())
    diag[i] = wide ? 1 << ((i * 5 + 3) % 11) : 1 << ((i * 5 + 3) % 4);
  diag.update_ghost_values();

  std::mt19937 gen(s.get("seed", 1) * 977 + rank);
  auto pick = [&](int n) { return int(gen() % n); };
  int const max_agg = s.get("max_agg", 3), max_eig = s.get("max_eig", 3);
  bool const same = s.get("same_number", 0);
  int const only = s.get("only_rank", -1);
  std::vector<dealii::types::global_dof_index> all(relevant.begin(),
                                                   relevant.end());
  std::vector<dealii::Vector<double>> eig;
  std::vector<std::vector<double>> diags;
  std::vector<std::vector<dealii::types::global_dof_index>> maps;
  std::vector<unsigned int> n_eig;
  std::vector<vh::Rec> in;
  int const n_agg =
      all.empty() || (only >= 0 && only != rank) ? 0 : pick(max_agg + 1);
  int const common = 1 + pick(max_eig);
  for (int a = 0; a < n_agg; ++a)
  {
    // some of the degrees of freedom, in any order
    auto perm = all;
    std::shuffle(perm.begin(), perm.end(), gen);
    perm.resize(1 + pick(std::min<int>(perm.size(), s.get("max_dofs", 9))));
    maps.push_back(perm);
    diags.emplace_back();
    for (unsigned int j = 0; j < perm.size(); ++j)
      diags.back().push_back(pick(10) == 0 ? 0.
                             : wide && pick(2)
                                 ? diag[perm[j]] - 1 + pick(3)
                                 : 1 + pick(7));
    n_eig.push_back(same ? common : pick(max_eig + 1));
    std::vector<std::vector<long>> es;
    for (unsigned int k = 0; k < n_eig.back(); ++k)
    {
      dealii::Vector<double> e(perm.size());
      for (auto &v : e)
        v = pick(4) == 0 ? 0. : pick(19) - 9;
      es.push_back({});
      for (auto v : e)
        es.back().push_back(std::lround(v));
      eig.push_back(e);
    }
    std::vector<long> d, p;
    for (auto v : diags.back())
      d.push_back(std::lround(v));
    for (auto v : perm)
      p.push_back(v);
    vh::Rec r;
    r("diag", d)("dofs", p)("eig", es);
    in.push_back(r);
  }
  std::vector<std::pair<long, long>> gd;
  for (auto i : relevant)
    gd.push_back({long(i), std::lround(diag[i])});

  double const scale = wide ? 1024. : 8.;
  M plain;
  amge.compute_restriction_sparse_matrix(eig, diags, maps, n_eig, diag, plain);
  auto restr = std::make_shared<M>();
  std::unique_ptr<M> ev, delta;
  if (s.get("again", 0))
  {
    // whatever the outputs held before must not matter
    amge.compute_restriction_sparse_matrix(eig, diags, maps, n_eig, diag, plain);
    amge.compute_restriction_sparse_matrix(eig, diags, maps, n_eig, diag, restr,
                                           ev, delta);
  }
  amge.compute_restriction_sparse_matrix(eig, diags, maps, n_eig, diag, restr, ev,
                                         delta);
  vh::Rec r;
  std::vector<long> own;
  for (auto i : dh.locally_owned_dofs())
    own.push_back(i);
  r("scale", long(scale))("ndofs", long(dh.n_dofs()))("own", own);
  r("aggs", in)("gdiag", gd);
  r("plain", rows(plain, scale))("restr", rows(*restr, scale));
  r("eigm", rows(*ev, scale))("delta", rows(*delta, scale));
  o.put("Assembled", r);
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.get("dim", 2) == 2)
      body<2>(s, o);
    else
      body<3>(s, o);
  });
}

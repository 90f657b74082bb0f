// Patches of agglomerates: the triangulation copied out of the mesh, and the
// map of its degrees of freedom.
#include "mesh.hpp"

#include <mfmg/common/amge.hpp>

#include <deal.II/dofs/dof_accessor.h>
#include <deal.II/lac/la_parallel_vector.h>

using V = dealii::LinearAlgebra::distributed::Vector<double>;

namespace
{
template <int dim>
using Key = std::array<double, dim>;
template <int dim>
struct Points
{
  std::map<Key<dim>, int> id;
  int operator()(dealii::Point<dim> const &p)
  {
    Key<dim> k;
    for (int d = 0; d < dim; ++d)
      k[d] = p[d];
    return id.emplace(k, id.size() + 1).first->second;
  }
};

// one cell: its vertices, what is behind its faces (a cell's number, or minus
// the boundary id minus one), its degrees of freedom
template <int dim, typename CellIt, typename Number>
vh::Rec cell_of(CellIt const &c, Points<dim> &pts, Number const &number,
                bool ids = true)
{
  using GI = dealii::GeometryInfo<dim>;
  std::vector<int> verts, faces;
  std::vector<long> dofs;
  for (unsigned int v = 0; v < GI::vertices_per_cell; ++v)
    verts.push_back(pts(c->vertex(v)));
  for (unsigned int f = 0; f < GI::faces_per_cell; ++f)
    faces.push_back(c->face(f)->at_boundary()
                        ? -1 - int(c->face(f)->boundary_id())
                        : number(c->neighbor(f)));
  if (ids)
  {
    std::vector<dealii::types::global_dof_index> d(c->get_fe().dofs_per_cell);
    c->get_dof_indices(d);
    dofs.assign(d.begin(), d.end());
  }
  vh::Rec r;
  r("v", verts)("f", faces)("d", dofs);
  return r;
}

template <int dim>
void body(vh::Scenario const &s, vh::Out &o)
{
  auto tria = vh::make_mesh<dim>(s.get_child("mesh"));
  // move the vertices of a lattice so that no two cells are congruent
  if (s.get("bend", 0))
    dealii::GridTools::transform(
        [](dealii::Point<dim> const &p) {
          dealii::Point<dim> q = p;
          q[0] += .125 * p[1] + .03125 * p[0] * p[1];
          q[dim - 1] += .0625 * p[0] * p[0];
          return q;
        },
        *tria);
  // boundary ids: one per face, from its position
  if (int const nb = s.get("bids", 0))
    for (auto c : tria->active_cell_iterators())
      for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        if (c->face(f)->at_boundary())
        {
          auto const p = c->face(f)->center();
          double h = 0;
          for (int d = 0; d < dim; ++d)
            h += p[d] * (17. + 5. * d);
          c->face(f)->set_boundary_id(std::lround(std::fabs(h) * 8.) % nb);
        }
  dealii::FE_Q<dim> fe(s.get("degree", 1));
  dealii::DoFHandler<dim> dh(*tria);
  dh.distribute_dofs(fe);
  mfmg::AMGe<dim, V> amge(MPI_COMM_WORLD, dh);
  auto const n_agg = amge.build_agglomerates(vh::params_of(s, "params"));
  auto const bnd = amge.build_boundary_agglomerates();

  Points<dim> pts;
  auto global_number = [](auto const &c) {
    return c->is_active() && !c->is_artificial() ? int(c->active_cell_index()) + 1
                                                 : 0;
  };
  std::vector<vh::Rec> cells;
  std::vector<int> agg;
  for (auto c : dh.active_cell_iterators())
  {
    cells.push_back(cell_of<dim>(c, pts, global_number, !c->is_artificial()));
    agg.push_back(c->user_index());
  }
  vh::Rec m;
  m("cells", cells)("agg", agg)("n", n_agg);
  o.put("Mesh", m);

  auto patch = [&](std::string const &how, int id,
                   std::vector<unsigned int> const &list) {
    dealii::Triangulation<dim> pt;
    std::map<typename dealii::Triangulation<dim>::active_cell_iterator,
             typename dealii::DoFHandler<dim>::active_cell_iterator>
        map;
    vh::Rec r;
    std::vector<vh::Rec> pc;
    std::vector<int> to;
    std::vector<long> dofs;
    auto const ended = vh::outcome_of([&]() {
      if (how == "id")
        amge.build_agglomerate_triangulation(id, pt, map);
      else
        amge.build_agglomerate_triangulation(list, pt, map);
      if (pt.n_active_cells() > 0)
      {
        dealii::DoFHandler<dim> pd(pt);
        pd.distribute_dofs(fe);
        for (auto c : pd.active_cell_iterators())
        {
          pc.push_back(cell_of<dim>(c, pts, [](auto const &n) {
            return int(n->active_cell_index()) + 1;
          }));
          auto const it = map.find(c);
          to.push_back(it == map.end()
                           ? 0
                           : int(it->second->active_cell_index()) + 1);
        }
        auto const dm = amge.compute_dof_index_map(map, pd);
        dofs.assign(dm.begin(), dm.end());
      }
    });
    r("how", ended)("by", how)("id", id)("list", list);
    r("cells", pc)("to", to)("dofs", dofs);
    o.put("Patch", r);
  };
  int const last = int(n_agg) + 1; // and one number nobody has
  for (int a = 1; a <= last; ++a)
    patch("id", a, {});
  for (auto const &l : bnd.first)
    patch("list", 0, l);
  for (auto const &l : bnd.second)
    patch("list", 0, l);
  // cells picked here and there
  std::vector<unsigned int> pick;
  int const step = s.get("step", 3);
  for (auto c : dh.active_cell_iterators())
    if (!c->is_artificial() && (c->active_cell_index() * 7 + 2) % step == 0)
      pick.push_back(c->active_cell_index());
  patch("list", 0, pick);
  patch("list", 0, {});
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.get("dim", 2) == 2)
      body<2>(s, o);
    else
      body<3>(s, o);
  });
}

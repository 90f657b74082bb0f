// Meshes described by a scenario.
#ifndef VERIF_MESH_HPP
#define VERIF_MESH_HPP
#include "common.hpp"

#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/tria.h>

namespace vh
{
// mesh: {kind, refine, reps:[..], adapt:[..], colorize, distributed}
template <int dim>
std::unique_ptr<dealii::Triangulation<dim>> make_mesh(Scenario const &m)
{
  std::unique_ptr<dealii::Triangulation<dim>> t;
  if (m.get("distributed", 1))
    t = std::make_unique<dealii::parallel::distributed::Triangulation<dim>>(
        MPI_COMM_WORLD);
  else
    t = std::make_unique<dealii::Triangulation<dim>>();
  auto const kind = m.get<std::string>("kind", "cube");
  bool const colorize = m.get("colorize", 0);
  if (kind == "cube")
    dealii::GridGenerator::hyper_cube(*t, 0., 1., colorize);
  else if (kind == "rect")
  {
    std::vector<unsigned int> reps;
    dealii::Point<dim> hi;
    auto const r = ilist(m, "reps");
    for (int d = 0; d < dim; ++d)
    {
      reps.push_back(r[d]);
      hi[d] = r[d];
    }
    dealii::GridGenerator::subdivided_hyper_rectangle(
        *t, reps, dealii::Point<dim>(), hi, colorize);
  }
  else if (kind == "ell")
    dealii::GridGenerator::hyper_L(*t, -1., 1., colorize);
  else if (kind == "ball")
    dealii::GridGenerator::hyper_ball(*t);
  else if (kind == "shell")
  {
    if constexpr (dim == 2)
      dealii::GridGenerator::hyper_shell(*t, dealii::Point<dim>(), 1., 2.,
                                         m.get("n", 6u), colorize);
  }
  else if (kind == "cross")
  {
    if constexpr (dim == 2)
    {
      std::vector<unsigned int> s(4, m.get("n", 1u));
      dealii::GridGenerator::hyper_cross(*t, s, colorize);
    }
  }
  else if (kind == "cheese")
  {
    std::vector<unsigned int> holes(dim, m.get("n", 1u));
    dealii::GridGenerator::cheese(*t, holes);
  }
  else if (kind == "two")
  {
    // two bodies that do not touch
    dealii::Triangulation<dim> a, b;
    dealii::Point<dim> p, q;
    dealii::GridGenerator::hyper_cube(a, 0., 1.);
    dealii::GridGenerator::hyper_cube(b, 2., 3.);
    dealii::GridGenerator::merge_triangulations(a, b, *t);
  }
  else if (kind == "uneven")
  {
    // bodies of different sizes that do not touch
    dealii::Triangulation<dim> a, b;
    dealii::Point<dim> p, q;
    std::vector<unsigned int> reps(dim, 1);
    reps[0] = m.get("n", 2u);
    for (int d = 0; d < dim; ++d)
      p[d] = d == 0 ? reps[0] : 1.;
    dealii::GridGenerator::subdivided_hyper_rectangle(
        a, reps, dealii::Point<dim>(), p);
    dealii::GridGenerator::hyper_cube(b, 9., 10.);
    dealii::GridGenerator::merge_triangulations(a, b, *t);
  }
  else
    throw std::runtime_error("no such mesh");
  t->refine_global(m.get("refine", 0u));
  // adaptive refinement: cells whose centre lies in [0, f)^dim, once per entry
  for (auto const &e : list(m, "adapt"))
  {
    double const f = std::stod(e);
    for (auto cell : t->active_cell_iterators())
      if (cell->is_locally_owned())
      {
        bool in = true;
        for (int d = 0; d < dim; ++d)
          in = in && cell->center()[d] < f;
        if (in)
          cell->set_refine_flag();
      }
    t->execute_coarsening_and_refinement();
  }
  return t;
}
inline boost::property_tree::ptree params_of(Scenario const &s,
                                             std::string const &key)
{
  boost::property_tree::ptree p;
  if (auto c = s.get_child_optional(key))
    for (auto const &e : *c)
      p.put(e.first, e.second.data());
  return p;
}
} // namespace vh
#endif

// Agglomeration of meshes: what every rank's cells end up in, over a history
// of operations on one mesh.
#include "mesh.hpp"

#include <mfmg/common/amge.hpp>

#include <deal.II/lac/la_parallel_vector.h>

#include <filesystem>

using V = dealii::LinearAlgebra::distributed::Vector<double>;

namespace
{
template <int dim>
vh::Rec view(dealii::DoFHandler<dim> const &dh)
{
  std::vector<int> own;
  std::vector<std::vector<int>> fwd, verts, pos;
  std::map<typename dealii::Triangulation<dim>::cell_iterator, int> number;
  for (auto c : dh.active_cell_iterators())
    number[c] = c->active_cell_index() + 1;
  for (auto c : dh.active_cell_iterators())
  {
    own.push_back(c->is_locally_owned() ? 1 : c->is_ghost() ? 2 : 0);
    fwd.emplace_back();
    verts.emplace_back();
    pos.emplace_back();
    for (int d = 0; d < dim; ++d)
    {
      int n = 0;
      if (!c->at_boundary(2 * d + 1) && !c->is_artificial())
      {
        auto const nb = c->neighbor(2 * d + 1);
        n = nb->is_active() ? number.at(nb) : 0;
      }
      fwd.back().push_back(n);
      // lower corner in units of the cell
      pos.back().push_back(
          std::lround(c->center()[d] / c->extent_in_direction(d) - 0.5));
    }
    for (unsigned int v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell; ++v)
      verts.back().push_back(c->vertex_index(v));
  }
  vh::Rec r;
  r("dim", dim)("own", own)("fwd", fwd)("verts", verts)("pos", pos);
  return r;
}
template <int dim>
std::vector<int> indices(dealii::DoFHandler<dim> const &dh)
{
  std::vector<int> id;
  for (auto c : dh.active_cell_iterators())
    id.push_back(c->user_index());
  return id;
}

template <int dim>
struct Setup
{
  std::unique_ptr<dealii::Triangulation<dim>> tria;
  dealii::FE_Q<dim> fe;
  std::unique_ptr<dealii::DoFHandler<dim>> dh;
  std::unique_ptr<mfmg::AMGe<dim, V>> amge;
  explicit Setup(vh::Scenario const &s)
      : tria(vh::make_mesh<dim>(s.get_child("mesh"))), fe(s.get("degree", 1))
  {
    renew();
  }
  void renew()
  {
    amge.reset();
    dh = std::make_unique<dealii::DoFHandler<dim>>(*tria);
    dh->distribute_dofs(fe);
    amge = std::make_unique<mfmg::AMGe<dim, V>>(MPI_COMM_WORLD, *dh);
  }
  void refine()
  {
    amge.reset();
    dh.reset();
    tria->refine_global(1);
    renew();
  }
};

template <int dim>
void agglomerate(vh::Scenario const &s, vh::Out &o)
{
  Setup<dim> a(s);
  int refined = 0;
  vh::Rec m = view<dim>(*a.dh);
  m("lattice", s.get("lattice", 0));
  o.put("Mesh", m);
  for (auto const &op : s.get_child("ops"))
  {
    auto const what = op.second.get<std::string>("do");
    if (what == "agg")
    {
      auto const p = vh::params_of(op.second, "params");
      auto const key = op.second.get<std::string>("key", "");
      if (op.second.get("fresh", 0))
      {
        Setup<dim> f(s);
        for (int i = 0; i < refined; ++i)
          f.refine();
        unsigned int n = 0;
        auto const how =
            vh::outcome_of([&]() { n = f.amge->build_agglomerates(p); });
        vh::Rec r;
        r("how", how)("key", key)("n", n)("id", indices<dim>(*f.dh));
        o.put("Fresh", r);
      }
      unsigned int n = 0;
      auto const how =
          vh::outcome_of([&]() { n = a.amge->build_agglomerates(p); });
      vh::Rec r;
      r("how", how)("key", key)("n", n)("id", indices<dim>(*a.dh));
      std::vector<int> size;
      for (auto k : {"nx", "ny", "nz"})
        size.push_back(p.get(k, 1));
      auto kind = p.get<std::string>("partitioner");
      std::transform(kind.begin(), kind.end(), kind.begin(), ::tolower);
      r("block", kind == "block")("size", size);
      o.put("Agg", r);
    }
    else if (what == "boundary")
    {
      auto const b = a.amge->build_boundary_agglomerates();
      vh::Rec q;
      q("interior", b.first)("halo", b.second)("id", indices<dim>(*a.dh));
      o.put("Boundary", q);
    }
    else if (what == "garbage")
    {
      auto const seed = op.second.get("seed", 7);
      for (auto c : a.tria->active_cell_iterators())
        c->set_user_index(1 + (c->active_cell_index() * seed) % 5);
    }
    else if (what == "renew")
      a.renew();
    else if (what == "refine")
    {
      a.refine();
      ++refined;
      vh::Rec v = view<dim>(*a.dh);
      v("lattice", s.get("lattice", 0));
      o.put("Mesh", v);
    }
    else if (what == "output")
    {
      // in a directory of this run; what is written there is read by C23
      std::string const dir = "out-" + s.get<std::string>("sc");
      std::filesystem::create_directories(dir);
      MPI_Barrier(MPI_COMM_WORLD);
      std::string const base = dir + "/" + op.second.get<std::string>("name", "agg");
      auto const how = vh::outcome_of([&]() { a.amge->output(base); });
      MPI_Barrier(MPI_COMM_WORLD);
      std::vector<std::string> files, sources;
      for (auto const &e : std::filesystem::directory_iterator(dir))
        files.push_back(e.path().filename().string());
      std::sort(files.begin(), files.end());
      vh::Rec r;
      r("how", how)("files", files)("base", op.second.get<std::string>("name", "agg"));
      r("ranks", int(dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD)));
      r("rank", int(dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD)));
      r("id", indices<dim>(*a.dh));
      std::ifstream in(base + ".pvtu");
      std::string const all((std::istreambuf_iterator<char>(in)),
                            std::istreambuf_iterator<char>());
      std::string const tag = "Source=\"";
      for (std::size_t p = all.find(tag); p != std::string::npos;
           p = all.find(tag, p + 1))
      {
        auto const b = p + tag.size();
        auto v = all.substr(b, all.find('"', b) - b);
        auto const slash = v.rfind('/');
        sources.push_back(slash == std::string::npos ? v : v.substr(slash + 1));
      }
      r("pieces", sources);
      o.put("Output", r);
      MPI_Barrier(MPI_COMM_WORLD);
    }
  }
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.get("dim", 2) == 2)
      agglomerate<2>(s, o);
    else
      agglomerate<3>(s, o);
  });
}

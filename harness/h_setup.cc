// Sets up the two-level hierarchy (or only its restrictor) with the real
// library and records the matrices it consists of, processor by processor.
#include "problem.hpp"

#include <mfmg/common/hierarchy.hpp>
#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

#include <deal.II/base/multithread_info.h>

#include <dlfcn.h>

#include <atomic>

// Pauses in the middle of the work on an agglomerate (timing scenarios only):
// in front of and behind the eigensolver of LAPACK and the products with a
// patch's matrix, which the executable's own definitions stand in front of.
namespace
{
std::atomic<unsigned> pauses{0};
std::atomic<unsigned> moment{0};
void pause(unsigned rare)
{
  if (pauses == 0)
    return;
  unsigned const h = (++moment * 2654435761u) >> 12;
  if (h % rare == 0)
    std::this_thread::sleep_for(std::chrono::microseconds(300 + h % 2000));
}
template <typename F>
F next_of(char const *name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
} // namespace
extern "C" void dsyevx_(void *a, void *b, void *c, void *d, void *e, void *f,
                        void *g, void *h, void *i, void *j, void *k, void *l,
                        void *m, void *n, void *o, void *p, void *q, void *r,
                        void *s, void *t)
{
  static auto const real = next_of<decltype(&dsyevx_)>("dsyevx_");
  pause(2);
  real(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t);
  pause(2);
}
#define VMULT "_ZNK6dealii12SparseMatrixIdE5vmultINS_6VectorIdEES3_EEvRT_RKT0_"
void patch_vmult(void const *, void *, void const *) asm(VMULT);
void patch_vmult(void const *m, void *dst, void const *src)
{
  static auto const real = next_of<decltype(&patch_vmult)>(VMULT);
  pause(6);
  real(m, dst, src);
  pause(6);
}

using vh::TM;
using vh::V;
using Op = mfmg::Operator<V>;
using Params = boost::property_tree::ptree;

namespace
{
constexpr double FINE = 1 << 20;
double unit = 1.;
vh::Rec *rec = nullptr;

TM const *matrix_of(std::shared_ptr<Op const> op)
{
  auto m =
      std::dynamic_pointer_cast<mfmg::DealIITrilinosMatrixOperator<V> const>(op);
  return m ? m->get_matrix().get() : nullptr;
}
void put(char const *name, std::shared_ptr<Op const> op, double scale,
         bool is_exact)
{
  auto m = matrix_of(op);
  if (m)
    (*rec)(name, vh::rows_of(*m, scale, is_exact));
  else
    (*rec)(name, "no matrix");
}

// passes everything on to the helpers of the library and remembers what went
// through
class Recording : public mfmg::HierarchyHelpers<V>
{
public:
  Recording(std::unique_ptr<mfmg::HierarchyHelpers<V>> h) : h(std::move(h)) {}
  std::shared_ptr<Op>
  get_global_operator(std::shared_ptr<mfmg::MeshEvaluator> e) override
  {
    return a = h->get_global_operator(e);
  }
  std::shared_ptr<Op>
  build_restrictor(MPI_Comm c, std::shared_ptr<mfmg::MeshEvaluator> e,
                   std::shared_ptr<Params const> p) override
  {
    r = h->build_restrictor(c, e, p);
    put("R", r, FINE, false);
    return r;
  }
  std::shared_ptr<Op> fast_multiply_transpose() override
  {
    ap = h->fast_multiply_transpose();
    put("AP", ap, FINE / unit, false);
    return ap;
  }
  std::shared_ptr<mfmg::Smoother<V>>
  build_smoother(std::shared_ptr<Op const> op,
                 std::shared_ptr<Params const> p) override
  {
    smoothers.push_back(op == a ? "fine" : "other");
    return h->build_smoother(op, p);
  }
  std::shared_ptr<mfmg::Solver<V>>
  build_coarse_solver(std::shared_ptr<Op const> op,
                      std::shared_ptr<Params const> p) override
  {
    if (r && !ap)
      put("AP", a->multiply_transpose(r), FINE / unit, false);
    put("Ac", op, FINE / unit, false);
    (*rec)("smoothers", smoothers)("fast", bool(ap))(
        "on", op == a ? "fine" : "coarse");
    return h->build_coarse_solver(op, p);
  }
  std::unique_ptr<mfmg::HierarchyHelpers<V>> h;
  std::shared_ptr<Op> a, r, ap;
  std::vector<std::string> smoothers;
};
} // namespace

namespace mfmg
{
template <>
std::unique_ptr<HierarchyHelpers<V>>
create_hierarchy_helpers<V>(std::shared_ptr<MeshEvaluator const> e)
{
  std::unique_ptr<HierarchyHelpers<V>> h;
  bool const free =
      e->get_mesh_evaluator_type() == "DealIIMatrixFreeMeshEvaluator";
  if (e->get_dim() == 2 && !free)
    h.reset(new DealIIHierarchyHelpers<2, V>());
  else if (!free)
    h.reset(new DealIIHierarchyHelpers<3, V>());
  else if (e->get_dim() == 2)
    h.reset(new DealIIMatrixFreeHierarchyHelpers<2, V>());
  else
    h.reset(new DealIIMatrixFreeHierarchyHelpers<3, V>());
  return std::make_unique<Recording>(std::move(h));
}
} // namespace mfmg

namespace
{
template <int dim>
void mesh_record(vh::Problem<dim> const &p, vh::Rec &r)
{
  r("ndofs", long(p.dh->n_dofs()))("mass", p.mass)("dim", dim);
  std::vector<long> own;
  for (auto i : p.dh->locally_owned_dofs())
    own.push_back(i);
  r("own", own);
  TM a;
  p.global(a);
  r("A", vh::rows_of(a, 1. / p.unit, true));
}
template <int dim>
void cell_record(vh::Problem<dim> const &p, vh::Rec &r)
{
  std::vector<vh::Rec> cells;
  std::vector<dealii::types::global_dof_index> ids(p.fe.dofs_per_cell);
  for (auto c : p.dh->active_cell_iterators())
    if (c->is_locally_owned())
    {
      c->get_dof_indices(ids);
      std::vector<long> d(ids.begin(), ids.end());
      cells.push_back(vh::Rec()("agg", long(c->user_index()))("dofs", d)(
          "c", p.weight(c->center())));
    }
  r("cells", cells);
}

// Applications of the hierarchy, judged together with the operator.
template <int dim, typename Evaluator>
void apply(vh::Scenario const &s, vh::Problem<dim> &p, vh::Out &o)
{
  constexpr double Y = 1 << 14, X = 1 << 6;
  // the vectors are integers times this power of two
  double const size = std::ldexp(1., s.get("xup", 0));
  unit = p.unit;
  auto params = std::make_shared<Params>(vh::params_of(s, "params"));
  bool const pre = params->get("is preconditioner", true);
  auto evaluator = std::make_shared<Evaluator>(p);
  std::map<long, long> spot;
  for (auto c : p.dh->active_cell_iterators())
    if (!c->is_artificial())
      for (unsigned int v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell;
           ++v)
        spot[c->vertex_dof_index(v, 0)] = vh::Problem<dim>::spot(c->vertex(v));
  auto const own = p.dh->locally_owned_dofs();
  TM a;
  p.global(a);
  auto fresh = [&](unsigned long seed) {
    V v(own, MPI_COMM_WORLD);
    for (auto i : own)
    {
      unsigned long h = (spot[i] + 77) * 2654435761ul + seed * 40503ul;
      h ^= h >> 15;
      h *= 2246822519ul;
      v[i] = seed == 0 ? 0. : size * (long((h >> 13) % 7) - 3);
    }
    return v;
  };
  auto put = [&](V const &v, double scale, bool is_exact) {
    std::vector<long> r;
    for (auto i : own)
      r.push_back(is_exact ? vh::exact(v[i] / size, scale)
                           : vh::fixed(v[i] / size, scale));
    return r;
  };
  vh::Rec r;
  rec = &r;
  mesh_record(p, r);
  std::vector<long> spots;
  for (auto i : own)
    spots.push_back(spot[i] % 1000000007);
  r("spots", spots);
  std::unique_ptr<mfmg::Hierarchy<V>> h;
  std::string const how = vh::outcome_of([&]() {
    h = std::make_unique<mfmg::Hierarchy<V>>(MPI_COMM_WORLD, evaluator, params);
  });
  r("how", how);
  o.put("Ready", r);
  if (how != "ok")
    return;
  auto run = [&](V const &b, V x) {
    h->vmult(x, b);
    return x;
  };
  unsigned long const seed = s.get("seed", 1);
  for (unsigned int k = 0; k < s.get("rounds", 2u); ++k)
  {
    V const b1 = fresh(7 * k + seed), b2 = fresh(7 * k + seed + 1),
            start = fresh(pre ? 7 * k + seed + 2 : 0);
    V b12(b1);
    b12.add(2., b2);
    auto const y1 = run(b1, start), y2 = run(b2, start), y12 = run(b12, start);
    o.put("Linear", vh::Rec()("b1", put(b1, 1., true))("b2", put(b2, 1., true))(
                        "y1", put(y1, Y, false))("y2", put(y2, Y, false))(
                        "y12", put(y12, Y, false)));
    V const want = fresh(7 * k + seed + 3);
    V b(want);
    a.vmult(b, want);
    if (!pre)
      o.put("Fixed", vh::Rec()("x", put(want, 1., true))(
                         "y", put(run(b, want), Y, false)));
    V x = fresh(7 * k + seed + 4);
    std::vector<std::vector<long>> xs(1, put(x, X, false));
    for (unsigned int i = 0; i < 4; ++i)
    {
      if (pre)
      {
        V res(b);
        a.vmult(res, x);
        res.sadd(-1., 1., b);
        V const d = run(res, fresh(5));
        x.add(1., d);
      }
      else
        h->vmult(x, b);
      xs.push_back(put(x, X, false));
    }
    o.put("Iterate", vh::Rec()("x", put(want, 1., true))("xs", xs));
  }
}

template <int dim, typename Evaluator, typename Base>
void setup(vh::Scenario const &s, vh::Problem<dim> &p, vh::Out &o)
{
  auto const mode = s.get<std::string>("mode", "hierarchy");
  if (mode == "apply")
    return apply<dim, Evaluator>(s, p, o);
  auto threads = vh::ilist(s, "threads");
  if (threads.empty())
    threads.push_back(1);
  unit = p.unit;
  pauses = !p.delay.empty();
  for (auto t : threads)
  {
    dealii::MultithreadInfo::set_thread_limit(t);
    vh::Rec r;
    rec = &r;
    auto params = std::make_shared<Params>(vh::params_of(s, "params"));
    auto evaluator = std::make_shared<Evaluator>(p);
    mesh_record(p, r);
    r("threads", t);
    std::string how;
    if (mode == "hierarchy")
      how = vh::outcome_of([&]() {
        mfmg::Hierarchy<V> h(MPI_COMM_WORLD, evaluator, params);
      });
    else
      how = vh::outcome_of([&]() {
        auto const &ep = params->get_child("eigensolver");
        mfmg::AMGe_host<dim, Base, V> amge(MPI_COMM_WORLD, *p.dh, ep);
        auto const diag = evaluator->get_diagonal();
        auto restr = std::make_shared<TM>();
        std::unique_ptr<TM> em, dm;
        std::vector<double> ev;
        amge.setup_restrictor(params->get_child("agglomeration"),
                              ep.get("number of eigenvectors", 1),
                              ep.get("tolerance", 1e-14), *evaluator, diag,
                              restr, em, dm, ev);
        TM plain;
        if (s.get("both", 0))
        {
          amge.setup_restrictor(params->get_child("agglomeration"),
                                ep.get("number of eigenvectors", 1),
                                ep.get("tolerance", 1e-14), *evaluator, diag,
                                plain);
          r("plain", vh::rows_of(plain, FINE, false));
        }
        r("R", vh::rows_of(*restr, FINE, false));
        r("E", vh::rows_of(*em, FINE, false));
        std::vector<long> evs;
        for (auto e : ev)
          evs.push_back(vh::fixed(e / p.unit, FINE));
        r("values", evs);
      });
    r("how", how);
    cell_record(p, r);
    o.put("Setup", r);
  }
  dealii::MultithreadInfo::set_thread_limit(1);
}

template <int dim>
void body(vh::Scenario const &s, vh::Out &o)
{
  vh::Problem<dim> p(s);
  if (s.get<std::string>("evaluator", "matrix") == "free")
    setup<dim, vh::FreeEvaluator<dim>, mfmg::DealIIMatrixFreeMeshEvaluator<dim>>(
        s, p, o);
  else
    setup<dim, vh::MatrixEvaluator<dim>, mfmg::DealIIMeshEvaluator<dim>>(s, p, o);
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.get("dim", 2) == 2)
      body<2>(s, o);
    else
      body<3>(s, o);
  });
}

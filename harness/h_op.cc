// Programs of operator calls on integer matrices spread over the processors.
#include "problem.hpp"

#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_operator.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

using vh::TM;
using vh::V;
using Op = mfmg::Operator<V>;
using MatOp = mfmg::DealIITrilinosMatrixOperator<V>;

namespace
{
// the matrix of an operator behind the interface of the matrix-free library
struct Wrap : public mfmg::DealIIMatrixFreeMeshEvaluator<2>
{
  Wrap(vh::Problem<2> &p, std::shared_ptr<TM const> m)
      : mfmg::DealIIMatrixFreeMeshEvaluator<2>(*p.dh, p.constraints), m_(m)
  {
  }
  void matrix_free_evaluate_global(V const &src, V &dst) const override
  {
    m_->vmult(dst, src);
  }
  std::shared_ptr<TM const> m_;
};
// the serial operator leaves two functions to others
struct Serial : public mfmg::DealIIMatrixOperator<dealii::Vector<double>>
{
  using Base = mfmg::DealIIMatrixOperator<dealii::Vector<double>>;
  using SOp = mfmg::Operator<dealii::Vector<double>>;
  using Base::Base;
  std::shared_ptr<SOp> transpose() const override { return {}; }
  std::shared_ptr<SOp> multiply(std::shared_ptr<SOp const>) const override
  {
    return {};
  }
};

struct Machine
{
  struct Entry
  {
    std::shared_ptr<Op> op;
    std::shared_ptr<TM const> m; // nothing for a matrix-free operator
    int exp;
  };
  std::vector<dealii::IndexSet> spaces;
  std::vector<Entry> heap;
  std::unique_ptr<vh::Problem<2>> problem;
  vh::Out &o;
  int up; // the code sees the vectors times 2^up

  double scale(int e) const { return std::ldexp(1., e); }
  std::vector<long> ids(dealii::IndexSet const &s)
  {
    std::vector<long> r;
    for (auto i : s)
      r.push_back(i);
    return r;
  }
  V vec(int space, std::vector<double> const &x, int e = 0)
  {
    V v(spaces[space], MPI_COMM_WORLD);
    for (auto i : spaces[space])
      v[i] = std::ldexp(x.empty() ? double(i % 3) + 5. : x[i], up - e);
    return v;
  }
  std::vector<std::pair<long, long>> values(V const &v, int e)
  {
    std::vector<std::pair<long, long>> r;
    auto own = v.locally_owned_elements();
    own.compress();
    for (auto i : own)
      r.push_back({long(i), vh::exact(v[i], scale(e - up))});
    return r;
  }
  void push(std::shared_ptr<Op> op, int e)
  {
    auto m = std::dynamic_pointer_cast<MatOp>(op);
    heap.push_back({op, m ? m->get_matrix() : nullptr, e});
  }
  void dump(vh::Rec &r)
  {
    std::vector<vh::Rec> all;
    for (auto const &h : heap)
      all.push_back(h.m ? vh::rows_of(*h.m, scale(h.exp), true)
                        : vh::Rec()("free", true));
    r("heap", all);
  }
  void step(vh::Scenario const &s)
  {
    auto const op = s.get<std::string>("op");
    vh::Rec r;
    int const j = s.get("j", 0), k = s.get("k", 0), e = s.get("e", 0);
    auto const mode = s.get("t", 0) ? mfmg::OperatorMode::TRANS
                                    : mfmg::OperatorMode::NO_TRANS;
    r("op", op)("j", j)("k", k)("t", s.get("t", 0));
    std::string const how = vh::outcome_of([&]() {
      if (op == "make")
      {
        auto const &rs = spaces[s.get<int>("r")], &cs = spaces[s.get<int>("c")];
        auto m = std::make_shared<TM>(rs, cs, MPI_COMM_WORLD);
        std::vector<std::vector<long>> in;
        for (auto const &x : vh::dmat(s, "entries"))
        {
          in.push_back({long(x[0]), long(x[1]), long(x[2])});
          if (rs.is_element(x[0]))
            m->set(x[0], x[1], std::ldexp(x[2], -e));
        }
        m->compress(dealii::VectorOperation::insert);
        r("rs", s.get<int>("r"))("cs", s.get<int>("c"))("entries", in)("e", e);
        push(std::make_shared<MatOp>(m), e);
      }
      else if (op == "apply")
      {
        int const xs = s.get<int>("xs"), ys = s.get<int>("ys");
        auto const x = vec(xs, vh::dlist(s, "x"));
        V const before(x);
        V y = vec(ys, {});
        if (s.get("built", 0)) // vectors as the operator builds them
        {
          auto px = s.get("t", 0) ? heap[j].op->build_range_vector()
                                  : heap[j].op->build_domain_vector();
          auto py = s.get("t", 0) ? heap[j].op->build_domain_vector()
                                  : heap[j].op->build_range_vector();
          *px = x;
          *py = y;
          heap[j].op->apply(*px, *py, mode);
          y = *py;
        }
        else
          heap[j].op->apply(x, y, mode);
        r("x", values(before, 0))("same", values(x, 0) == values(before, 0));
        r("y", values(y, heap[j].exp));
      }
      else if (op == "transpose")
        push(heap[j].op->transpose(), heap[j].exp);
      else if (op == "multiply")
        push(heap[j].op->multiply(heap[k].op), heap[j].exp + heap[k].exp);
      else if (op == "multiply_transpose")
        push(heap[j].op->multiply_transpose(heap[k].op),
             heap[j].exp + heap[k].exp);
      else if (op == "product") // the template, on any operator
      {
        auto const c = mfmg::matrix_transpose_matrix_multiply(
            heap[j].m->locally_owned_range_indices(),
            heap[k].m->locally_owned_range_indices(), MPI_COMM_WORLD,
            *heap[k].m, static_cast<MatOp const &>(*heap[j].op));
        push(std::make_shared<MatOp>(c), heap[j].exp + heap[k].exp);
      }
      else if (op == "free")
        push(std::make_shared<mfmg::DealIIMatrixFreeOperator<2, V>>(
                 std::make_shared<Wrap>(*problem, heap[j].m)),
             heap[j].exp);
      else if (op == "vectors")
      {
        auto d = heap[j].op->build_domain_vector(),
             g = heap[j].op->build_range_vector();
        r("domain", values(*d, 0))("range", values(*g, 0));
        r("dsize", long(d->size()))("rsize", long(g->size()));
        if (heap[j].m)
          r("grid", long(heap[j].op->grid_complexity()))(
              "entries", long(heap[j].op->operator_complexity()));
      }
      else if (op == "row")
      {
        auto const v = mfmg::extract_row(*heap[j].m, s.get<unsigned>("row"));
        r("row", s.get<int>("row"))("y", values(v, heap[j].exp + up));
      }
      else if (op == "serial")
      {
        auto const in = vh::dmat(s, "entries");
        int const m = s.get<int>("m"), n = s.get<int>("n");
        dealii::DynamicSparsityPattern dsp(m, n);
        for (auto const &x : in)
          dsp.add(x[0], x[1]);
        auto sp = std::make_shared<dealii::SparsityPattern>();
        sp->copy_from(dsp);
        auto mat = std::make_shared<dealii::SparseMatrix<double>>(*sp);
        std::vector<std::vector<long>> es;
        for (auto const &x : in)
        {
          mat->set(x[0], x[1], x[2]);
          es.push_back({long(x[0]), long(x[1]), long(x[2])});
        }
        Serial const a(sp, mat);
        auto px = s.get("t", 0) ? a.build_range_vector() : a.build_domain_vector();
        auto py = s.get("t", 0) ? a.build_domain_vector() : a.build_range_vector();
        auto const xs = vh::dlist(s, "x");
        std::vector<long> xv, yv;
        r("xsize", long(px->size()))("ysize", long(py->size()));
        if (px->size() == xs.size())
        {
          for (unsigned int i = 0; i < xs.size(); ++i)
            (*px)(i) = xs[i];
          *py = 7.;
          a.apply(*px, *py, mode);
        }
        for (double v : *px)
          xv.push_back(vh::exact(v));
        for (double v : *py)
          yv.push_back(vh::exact(v));
        r("m", m)("n", n)("entries", es)("xv", xv)("yv", yv);
        r("grid", long(a.grid_complexity()));
      }
    });
    r("how", how);
    dump(r);
    o.put("Call", r);
  }
};

void body(vh::Scenario const &s, vh::Out &o)
{
  unsigned int const rank =
      dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  Machine m{{}, {}, nullptr, o, s.get("up", 0)};
  if (s.get_child_optional("mesh"))
  {
    m.problem = std::make_unique<vh::Problem<2>>(s);
    m.spaces.push_back(m.problem->dh->locally_owned_dofs());
  }
  for (auto const &sizes : vh::dmat(s, "spaces"))
  {
    long first = 0, n = 0;
    for (unsigned int p = 0; p < sizes.size(); ++p)
      (p < rank ? first : n) += p > rank ? 0 : long(sizes[p]);
    long const all = std::accumulate(sizes.begin(), sizes.end(), 0.);
    dealii::IndexSet is(all);
    is.add_range(first, first + n);
    is.compress();
    m.spaces.push_back(is);
  }
  std::vector<std::vector<long>> own;
  for (auto const &is : m.spaces)
    own.push_back(m.ids(is));
  o.put("Spaces", vh::Rec()("own", own));
  for (auto const &c : s.get_child("program"))
    m.step(c.second);
}
} // namespace

int main(int argc, char **argv) { return vh::run(argc, argv, body); }

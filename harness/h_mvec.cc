// Runs programs of calls on the blocks of vectors the eigensolvers work with.
#include "common.hpp"

#include <mfmg/common/exceptions.hpp>
#include <mfmg/dealii/anasazi.hpp>
#include <mfmg/dealii/anasazi_traits.hpp>
#include <mfmg/dealii/multivector.hpp>

#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/vector.h>

#include <Teuchos_SerialDenseMatrix.hpp>

using Vec = dealii::Vector<double>;
using MV = mfmg::MultiVector<Vec>;
using T = Anasazi::MultiVecTraits<double, MV>;
using SM = dealii::SparseMatrix<double>;
using O = Anasazi::OperatorTraits<double, MV, SM>;
using Matrix = Teuchos::SerialDenseMatrix<int, double>;

namespace
{
std::vector<int> zero_based(std::vector<long> const &ix)
{
  std::vector<int> r;
  for (auto i : ix)
    r.push_back(i - 1);
  return r;
}
void program(vh::Scenario const &s, vh::Out &o)
{
  std::vector<Teuchos::RCP<MV>> blk;
  auto const at = [&](vh::Scenario const &c, char const *key) -> MV & {
    return *blk[c.get<int>(key) - 1];
  };
  for (auto const &step : s.get_child("program"))
  {
    auto const &c = step.second;
    auto const op = c.get<std::string>("op");
    auto const how = c.get<std::string>("how", "all");
    vh::Rec r;
    r("op", op);
    for (auto k : {"of", "m", "a", "b", "c", "r", "n", "size"})
      if (auto v = c.get_optional<long>(k))
        r(k, *v);
    auto const ix = vh::ilist(c, "ix");
    auto const index = zero_based(ix);
    if (!ix.empty())
      r("ix", ix);
    Teuchos::Range1D range;
    if (how == "range")
      range = Teuchos::Range1D(index.front(), index.back());
    auto const matrix = [&]() {
      auto const d = vh::dmat(c, "B");
      Matrix B(d.size(), d[0].size());
      std::vector<std::vector<long>> rec;
      for (unsigned int i = 0; i < d.size(); ++i)
      {
        rec.emplace_back();
        for (unsigned int j = 0; j < d[i].size(); ++j)
        {
          B(i, j) = d[i][j];
          rec.back().push_back(d[i][j]);
        }
      }
      r("B", rec);
      return B;
    };
    if (op == "new")
      blk.push_back(Teuchos::rcp(new MV(c.get<int>("n"), c.get<int>("size"))));
    else if (op == "clone")
      blk.push_back(T::Clone(at(c, "of"), c.get<int>("n")));
    else if (op == "copy")
      blk.push_back(how == "all"     ? T::CloneCopy(at(c, "of"))
                    : how == "range" ? T::CloneCopy(at(c, "of"), range)
                                     : T::CloneCopy(at(c, "of"), index));
    else if (op == "view" && how == "all")
    {
      std::vector<std::shared_ptr<Vec>> v;
      for (auto i : index)
        v.push_back(at(c, "of")[i]);
      blk.push_back(Teuchos::rcp(new MV(v)));
    }
    else if (op == "view" && how == "const")
      blk.push_back(
          Teuchos::rcp_const_cast<MV>(T::CloneView(at(c, "of"), index)));
    else if (op == "view" && how == "const range")
      blk.push_back(Teuchos::rcp_const_cast<MV>(T::CloneView(
          at(c, "of"), Teuchos::Range1D(index.front(), index.back()))));
    else if (op == "view")
      blk.push_back(how == "range" ? T::CloneViewNonConst(at(c, "of"), range)
                                   : T::CloneViewNonConst(at(c, "of"), index));
    else if (op == "poke")
    {
      r("x", c.get<long>("x"));
      (*at(c, "m")[c.get<int>("c") - 1])[c.get<int>("r") - 1] = c.get<long>("x");
    }
    else if (op == "add")
    {
      r("al", c.get<long>("al"))("be", c.get<long>("be"));
      T::MvAddMv(c.get<double>("al"), at(c, "a"), c.get<double>("be"),
                 at(c, "b"), at(c, "m"));
    }
    else if (op == "times")
    {
      r("al", c.get<long>("al"))("be", c.get<long>("be"));
      T::MvTimesMatAddMv(c.get<double>("al"), at(c, "a"), matrix(),
                         c.get<double>("be"), at(c, "m"));
    }
    else if (op == "scale")
    {
      auto const al = vh::dlist(c, "al");
      if (how == "one")
        T::MvScale(at(c, "m"), al[0]);
      else
        T::MvScale(at(c, "m"), al);
      r("al", vh::ilist(c, "al"));
    }
    else if (op == "set")
    {
      if (how == "range")
        T::SetBlock(at(c, "a"), range, at(c, "m"));
      else
        T::SetBlock(at(c, "a"), index, at(c, "m"));
    }
    else if (op == "init")
    {
      r("x", c.get<long>("x"));
      if (c.get<long>("x") == 0)
        T::MvInit(at(c, "m"));
      else
        T::MvInit(at(c, "m"), c.get<double>("x"));
    }
    else if (op == "random")
    {
      auto &m = at(c, "m");
      T::MvRandom(m);
      std::vector<std::vector<long>> raw;
      for (int i = 0; i < m.n_vectors(); ++i)
      {
        raw.emplace_back();
        for (auto &v : *m[i])
        {
          long const x = std::floor(v * (1 << 20));
          raw.back().push_back(x);
          v = x / 65536;
        }
      }
      r("raw", raw);
    }
    else if (op == "trans" || op == "dot")
    {
      if (op == "trans")
      {
        Matrix C(at(c, "a").n_vectors(), at(c, "b").n_vectors());
        C.putScalar(17.);
        r("al", c.get<long>("al"));
        T::MvTransMv(c.get<double>("al"), at(c, "a"), at(c, "b"), C);
        std::vector<std::vector<long>> ret(C.numRows());
        for (int i = 0; i < C.numRows(); ++i)
          for (int j = 0; j < C.numCols(); ++j)
            ret[i].push_back(vh::exact(C(i, j)));
        r("ret", ret);
      }
      else
      {
        std::vector<double> d(c.get("have", 0), 17.);
        T::MvDot(at(c, "a"), at(c, "b"), d);
        std::vector<long> ret;
        for (auto v : d)
          ret.push_back(vh::exact(v));
        r("ret", ret);
      }
    }
    else if (op == "norm")
    {
      std::vector<double> d(c.get("have", 0), 17.);
      T::MvNorm(at(c, "m"), d);
      std::vector<long> ret;
      for (auto v : d)
        ret.push_back(vh::fixed(v, 16.));
      r("ret", ret);
    }
    else if (op == "size")
    {
      auto &m = at(c, "m");
      r("ret", std::vector<long>{T::GetGlobalLength(m), T::GetNumberVecs(m),
                                 m.size(), m.n_vectors()});
    }
    else if (op == "apply")
    {
      auto const d = vh::dmat(c, "M");
      dealii::DynamicSparsityPattern dsp(d.size(), d.size());
      for (unsigned int i = 0; i < d.size(); ++i)
        for (unsigned int j = 0; j < d.size(); ++j)
          dsp.add(i, j);
      dealii::SparsityPattern sp;
      sp.copy_from(dsp);
      SM m(sp);
      std::vector<std::vector<long>> rec(d.size());
      for (unsigned int i = 0; i < d.size(); ++i)
        for (unsigned int j = 0; j < d.size(); ++j)
        {
          m.set(i, j, d[i][j]);
          rec[i].push_back(d[i][j]);
        }
      r("M", rec);
      O::Apply(m, at(c, "a"), at(c, "m"));
    }
    else if (op == "assign")
      r("ret", vh::outcome_of([&]() { T::Assign(at(c, "a"), at(c, "m")); }));
    std::vector<std::vector<std::vector<long>>> all;
    for (auto const &b : blk)
    {
      all.emplace_back();
      for (int i = 0; i < b->n_vectors(); ++i)
      {
        all.back().emplace_back();
        for (auto v : *(*b)[i])
          all.back().back().push_back(vh::exact(v));
      }
    }
    r("all", all);
    o.put("Op", r);
  }
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv,
                 [](vh::Scenario const &s, vh::Out &o) { program(s, o); });
}

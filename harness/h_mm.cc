// Writes matrices and vectors to files with the real library and reads the
// files back, all of them after every output.
#include "common.hpp"

#include <mfmg/dealii/dealii_utils.hpp>

#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/trilinos_vector.h>

#include <cstdio>
#include <numeric>

namespace
{
vh::Rec read(std::string const &path, std::string const &name, double scale)
{
  std::ifstream f(path);
  std::string line, banner;
  std::vector<long> head;
  std::vector<std::vector<long>> body;
  bool const is_open = bool(f);
  bool sizes = false, is_matrix = false;
  while (std::getline(f, line))
  {
    if (banner.empty())
    {
      banner = line;
      while (!banner.empty() && std::isspace(banner.back()))
        banner.pop_back();
      is_matrix = banner.find("coordinate") != std::string::npos;
      continue;
    }
    if (line.empty() || line[0] == '%')
      continue;
    std::istringstream in(line);
    std::vector<std::string> words;
    for (std::string w; in >> w;)
      words.push_back(w);
    std::vector<long> row;
    for (unsigned int k = 0; k < words.size(); ++k)
    {
      char *end = nullptr;
      bool const value = sizes && k + 1 == words.size();
      if (value)
        row.push_back(vh::exact(std::strtod(words[k].c_str(), &end), scale));
      else
        row.push_back(std::strtol(words[k].c_str(), &end, 10));
      if (*end)
        row.back() = vh::BAD;
    }
    (sizes ? body.emplace_back() : head) = row;
    sizes = true;
  }
  (void)is_matrix;
  return vh::Rec()("name", name)("open", is_open)("banner", banner)("head", head)(
      "body", body);
}

void body(vh::Scenario const &s, vh::Out &o)
{
  unsigned int const rank =
      dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  std::string const dir = s.get<std::string>("dir") + "/" + o.sc + ".";
  std::map<std::string, double> names;
  auto spread = [&](vh::Scenario const &c, char const *key) {
    auto const sizes = vh::dlist(c, key);
    long first = 0, n = 0;
    for (unsigned int p = 0; p < sizes.size(); ++p)
      (p < rank ? first : n) += p > rank ? 0 : long(sizes[p]);
    dealii::IndexSet is(long(std::accumulate(sizes.begin(), sizes.end(), 0.)));
    is.add_range(first, first + n);
    is.compress();
    return is;
  };
  for (auto const &e : s.get_child("program"))
  {
    auto const &c = e.second;
    auto const name = c.get<std::string>("name"), op = c.get<std::string>("op");
    double const scale = std::ldexp(1., c.get<int>("e"));
    auto const rs = spread(c, "rs"), cs = spread(c, "cs");
    vh::Rec r;
    std::vector<std::vector<long>> in;
    for (auto const &x : vh::dmat(c, "entries"))
      in.push_back({long(x[0]), long(x[1]), long(x[2])});
    r("name", name)("op", op)("kind", op == "vector" ? "vector" : "matrix");
    r("m", long(rs.size()))("n", op == "vector" ? 1l : long(cs.size()))("val", in);
    names[name] = scale;
    r("how", vh::outcome_of([&]() {
        if (op == "vector")
        {
          dealii::TrilinosWrappers::MPI::Vector v(rs, MPI_COMM_WORLD);
          for (auto const &x : in)
            if (rs.is_element(x[0]))
              v[x[0]] = x[2] / scale;
          v.compress(dealii::VectorOperation::insert);
          mfmg::matrix_market_output_file(dir + name, v);
        }
        else if (op == "matrix")
        {
          dealii::TrilinosWrappers::SparseMatrix m(rs, cs, MPI_COMM_WORLD);
          for (auto const &x : in)
            if (rs.is_element(x[0]))
              m.set(x[0], x[1], x[2] / scale);
          m.compress(dealii::VectorOperation::insert);
          mfmg::matrix_market_output_file(dir + name, m);
        }
        else
        {
          dealii::DynamicSparsityPattern dsp(rs.size(), cs.size());
          for (auto const &x : in)
            dsp.add(x[0], x[1]);
          dealii::SparsityPattern sp;
          sp.copy_from(dsp);
          dealii::SparseMatrix<double> m(sp);
          for (auto const &x : in)
            m.set(x[0], x[1], x[2] / scale);
          mfmg::matrix_market_output_file(dir + name, m);
        }
      }));
    std::vector<vh::Rec> files;
    if (rank == 0)
      for (auto const &n : names)
        files.push_back(read(dir + n.first, n.first, n.second));
    r("files", files);
    MPI_Barrier(MPI_COMM_WORLD);
    o.put("Wrote", r);
  }
  if (rank == 0)
    for (auto const &n : names)
      std::remove((dir + n.first).c_str());
}
} // namespace

int main(int argc, char **argv) { return vh::run(argc, argv, body); }

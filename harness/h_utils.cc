// Parameter trees turned into parameter lists; sorting permutations.
#include "common.hpp"

#include <mfmg/common/utils.hpp>

#include <Teuchos_ParameterList.hpp>

namespace
{
std::string text(vh::Scenario const &s, std::string const &key)
{
  std::string r;
  for (long c : vh::ilist(s, key))
    r += static_cast<char>(c);
  return r;
}
std::vector<int> codes(std::string const &s)
{
  std::vector<int> r;
  for (unsigned char c : s)
    r.push_back(c);
  return r;
}
boost::property_tree::ptree tree(vh::Scenario const &s)
{
  boost::property_tree::ptree t(text(s, "v"));
  if (auto k = s.get_child_optional("k"))
    for (auto const &c : *k)
      t.push_back({text(c.second, "n"), tree(c.second)});
  return t;
}
vh::J dump(Teuchos::ParameterList const &p)
{
  std::vector<vh::J> r;
  for (auto const &e : p)
  {
    vh::Rec rec;
    rec("n", codes(e.first));
    auto const &x = e.second;
    if (x.isList())
      rec("t", "list")("k", dump(Teuchos::getValue<Teuchos::ParameterList>(x)));
    else if (x.isType<int>())
      rec("t", "int")("i", Teuchos::getValue<int>(x));
    else if (x.isType<double>())
      rec("t", "double")("i", vh::fixed(Teuchos::getValue<double>(x), 1e3))(
          "j", vh::fixed(Teuchos::getValue<double>(x), 1e12));
    else if (x.isType<bool>())
      rec("t", "bool")("i", Teuchos::getValue<bool>(x) ? 1 : 0);
    else if (x.isType<std::string>())
      rec("t", "string")("s", codes(Teuchos::getValue<std::string>(x)));
    else
      rec("t", "other");
    r.push_back(rec.j());
  }
  return vh::js(r);
}
template <typename T>
std::vector<T> to(std::vector<long> const &v)
{
  return std::vector<T>(v.begin(), v.end());
}
template <typename T>
std::vector<long> back(std::vector<T> const &v)
{
  std::vector<long> r;
  for (auto e : v)
    r.push_back(vh::exact(e));
  return r;
}
template <typename T>
void sorting(vh::Scenario const &s, vh::Out &o)
{
  auto const v1 = to<T>(vh::ilist(s, "v1")), v2 = to<T>(vh::ilist(s, "v2"));
  auto const perm = mfmg::sort_permutation(v1, v2);
  auto a = v1, b = v2;
  mfmg::apply_permutation_in_place(perm, a);
  mfmg::apply_permutation_in_place(perm, b);
  o.put("Sort", vh::Rec()("v1", back(v1))("v2", back(v2))("perm", perm)(
                    "o1", back(a))("o2", back(b)));
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    auto const kind = s.get<std::string>("kind");
    if (kind == "plist")
    {
      // the same target list is used for the whole history of trees
      Teuchos::ParameterList p;
      p.set("left over", 3);
      for (auto const &t : s.get_child("trees"))
      {
        auto const pt = tree(t.second);
        std::string const how =
            vh::outcome_of([&]() { mfmg::ptree2plist(pt, p); });
        o.put("Plist", vh::Rec()("how", how)("out", dump(p)));
      }
    }
    else if (kind == "sort")
    {
      if (s.get<std::string>("type", "double") == "double")
        sorting<double>(s, o);
      else
        sorting<int>(s, o);
    }
    else if (kind == "apply")
    {
      std::vector<unsigned int> perm;
      for (long v : vh::ilist(s, "perm"))
        perm.push_back(v);
      auto v = vh::ilist(s, "v");
      auto const in = v;
      auto const keep = perm;
      mfmg::apply_permutation_in_place(perm, v);
      o.put("Apply", vh::Rec()("perm", keep)("v", in)("o", v));
    }
  });
}

// Parts of data arrays by name, independent of layout and order of dimensions.
#pragma once
#include "gen_ds.h"

namespace vf {
inline std::string text_of(const Variable &v, const IndexMap &at) { return is_binned(v) ? bin_text(v, at) : text_at(v, at); }
inline std::string header(const Variable &v) {
  auto c = content(v.dims().volume() == 0 ? v : [&] {
    auto s = v;
    for (const auto &d : std::vector<Dim>(v.dims().labels().begin(), v.dims().labels().end()))
      s = s.slice({d, 0});
    return s;
  }());
  return c.type + '[' + c.unit + ']';
}
inline int64_t get(const IndexMap &at, const Dim d) {
  for (const auto &p : at)
    if (p.first == d)
      return p.second;
  fail("harness", "no index for " + d.name());
}
inline IndexMap sub(const IndexMap &at, const Dimensions &dims) {
  IndexMap out;
  for (const auto &p : at)
    if (dims.contains(p.first))
      out.push_back(p);
  return out;
}
inline std::vector<Dim> label_list(const Dimensions &d) { return {d.labels().begin(), d.labels().end()}; }
// content without names, alignment and order of dimensions
inline std::string canon(const Variable &v) {
  auto ls = label_list(v.dims());
  std::sort(ls.begin(), ls.end(), [](const auto &a, const auto &b) { return a.name() < b.name(); });
  auto t = v.is_valid() && ls.size() > 1 ? transpose(v, ls) : v;
  const auto c = content(t);
  std::string s = c.type + c.dims + '[' + c.unit + "]{";
  for (const auto &x : c.cells)
    s += x + ';';
  return s + '}';
}
template <class F> void each_part(const DataArray &a, F &&f) {
  f("data", a.data());
  for (const auto &[k, x] : a.coords())
    f("coord " + k.name(), x);
  for (const auto &[k, x] : a.masks())
    f("mask " + k, x);
  for (const auto &[k, x] : a.attrs())
    f("attr " + k.name(), x);
}
using Parts = std::map<std::string, Variable>;
inline Parts parts_of(const DataArray &a) {
  Parts p;
  each_part(a, [&](const std::string &k, const Variable &v) { p.emplace(k, v); });
  return p;
}
inline std::string canon(const DataArray &a, const bool attrs = true) {
  std::string s;
  for (const auto &[k, v] : parts_of(a))
    if (attrs || k.substr(0, 4) != "attr")
      s += k + '=' + canon(v) + '\n';
  return s;
}
inline bool has_edge(const Variable &v, const Dimensions &dims, const Dim d) { return v.dims().contains(d) && v.dims()[d] == dims[d] + 1; }
// text of everything v holds at index i of dim d
inline std::string row_of(const Variable &v, const Dim d, const int64_t i) {
  auto ls = label_list(v.dims());
  std::sort(ls.begin(), ls.end(), [](const auto &a, const auto &b) { return a.name() < b.name(); });
  Dimensions rest;
  for (const auto &l : ls)
    if (l != d)
      rest.addInner(l, v.dims()[l]);
  std::string s;
  each_index(rest, [&](const IndexMap &at) {
    auto f = at;
    f.emplace_back(d, i);
    s += text_of(v, f) + ';';
  });
  return s;
}
// text of all parts that depend on d, at index i, leaving out edges along d
inline std::string row_of(const DataArray &a, const Dim d, const int64_t i) {
  std::string s;
  for (const auto &[k, v] : parts_of(a))
    if (v.dims().contains(d) && v.dims()[d] == a.dims()[d])
      s += k + '=' + row_of(v, d, i) + '\n';
  return s;
}
} // namespace vf

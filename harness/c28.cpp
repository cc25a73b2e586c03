// C28: text output is total, and dates are exact. Oracle for dates: gmtime_r on
// floored seconds; for elements: independent rules for the ones shown; for
// everything: full text from raw memory before and after, ASan/UBSan.
#include "events.h"
#include "parts.h"
#include "scipp/core/array_to_string.h"
#include "scipp/dataset/string.h"
#include <ctime>
#include <sstream>

using namespace vf;

namespace {
struct Res {
  std::string name;
  units::Unit unit;
  int64_t per_second; // counts per second, or 0
  int64_t seconds;    // seconds per count, or 0
  int digits;
};
const std::vector<Res> &resolutions() {
  static const std::vector<Res> r{{"ns", units::ns, 1000000000, 0, 9},  {"us", units::us, 1000000, 0, 6},        {"ms", units::Unit("ms"), 1000, 0, 3},
                                  {"s", units::s, 1, 0, 0},             {"min", units::Unit("min"), 0, 60, 0},   {"h", units::Unit("h"), 0, 3600, 0},
                                  {"D", units::Unit("D"), 0, 86400, 0}, {"month", units::Unit("month"), 0, 0, 0}, {"year", units::Unit("year"), 0, 0, 0}};
  return r;
}
int64_t floor_div(const int64_t a, const int64_t b) { return a / b - (a % b != 0 && ((a % b < 0) != (b < 0))); }
std::string printed(const char *format, const int64_t a, const int64_t b = 0, const int64_t c = 0) {
  char s[128];
  snprintf(s, sizeof s, format, static_cast<long long>(a), static_cast<long long>(b), static_cast<long long>(c));
  return s;
}
// empty if the year does not fit four digits
std::string expected_date(const int64_t count, const Res &r) {
  if (r.name == "year") {
    if (count < 1000 - 1970 || count > 9999 - 1970)
      return "";
    return printed("%lld", count + 1970);
  }
  if (r.name == "month") {
    const auto y = floor_div(count, 12) + 1970;
    if (y < 1000 || y > 9999)
      return "";
    return printed("%lld-%02lld", y, count - floor_div(count, 12) * 12 + 1);
  }
  int64_t seconds, rest = 0;
  if (r.per_second) {
    seconds = floor_div(count, r.per_second);
    rest = ((count % r.per_second) + r.per_second) % r.per_second;
  } else {
    if (std::abs(double(count)) * double(r.seconds) > 1e12)
      return "";
    seconds = count * r.seconds;
  }
  const std::time_t t = seconds;
  std::tm tm{};
  if (std::fabs(double(seconds)) > 1e12 || !gmtime_r(&t, &tm))
    return "";
  const int64_t year = int64_t(tm.tm_year) + 1900;
  if (year < 1000 || year > 9999)
    return "";
  auto s = printed("%lld-%02lld-%02lld", year, tm.tm_mon + 1, tm.tm_mday);
  if (r.name == "D")
    return s;
  s += printed("T%02lld:%02lld:%02lld", tm.tm_hour, tm.tm_min, tm.tm_sec);
  if (r.digits) {
    char f[32];
    snprintf(f, sizeof f, ".%0*lld", r.digits, static_cast<long long>(rest));
    s += f;
  }
  return s;
}
int64_t rand_count(Rng &rng, const Res &r) {
  const auto lim = std::numeric_limits<int64_t>::max();
  // seconds of interesting moments, before and after 1970
  const std::vector<int64_t> moments{0,           951782400 /* 2000-02-29 */, 4107542400 /* 2100-03-01 */, -2203891200 /* 1900-03-01 */, -2208988800, 253402300799 /* 9999 */, -30610224000 /* 1000 */,
                                     1582934400, 68169600,  2147483647,                   -2147483648LL,               1709164800,                    -11676096000, -62135596800 /* 0001 */};
  switch (rng.in(0, 7)) {
  case 0:
    return rng.in(-2000, 2000);
  case 1:
    return rng.pick({lim, -lim, -lim - 1, lim - 1, lim - 1970, lim / 2, lim - 719468, -lim / 3, lim / 86400, -lim / 60});
  case 2:
    return int64_t(rng.next());
  default: {
    const int64_t s = moments[size_t(rng.in(0, int64_t(moments.size()) - 1))] + (rng.chance(1, 2) ? rng.in(-3, 3) : rng.in(-1000000000, 1000000000));
    if (r.per_second) {
      if (std::fabs(double(s)) * double(r.per_second) > 9e18)
        return int64_t(rng.next());
      return s * r.per_second + (r.per_second > 1 ? rng.chance(1, 3) ? rng.in(0, 3) : rng.chance(1, 2) ? r.per_second - rng.in(1, 3) : rng.in(0, r.per_second - 1) : 0);
    }
    if (r.seconds)
      return floor_div(s, r.seconds);
    if (r.name == "month")
      return rng.in(-970 * 12 - 30, 8030 * 12 + 30);
    return rng.in(-1000, 8100);
  }
  }
}

template <class T> std::string element(const T &x, const Res &r) {
  if constexpr (std::is_same_v<T, std::string>)
    return '"' + (x.size() > 80 ? x.substr(0, 77) + "..." : x) + '"';
  else if constexpr (std::is_same_v<T, bool>)
    return x ? "True" : "False";
  else if constexpr (std::is_same_v<T, time_point>)
    return expected_date(x.time_since_epoch(), r);
  else {
    std::ostringstream s;
    s << x;
    return s.str();
  }
}
// the first two and last two elements, nothing for none and all up to four
std::string shown(const std::vector<std::string> &e) {
  if (e.empty())
    return "[]";
  std::string s = "[";
  for (size_t i = 0; i < e.size(); ++i) {
    if (i == 2 && e.size() > 4) {
      s += "..., ";
      i = e.size() - 2;
    }
    s += e[i] + (i + 1 < e.size() ? ", " : "]");
  }
  return s;
}
const Res &resolution(Rng &rng) { return resolutions()[size_t(rng.in(0, int64_t(resolutions().size()) - 1))]; }
const Res &resolution_of(const units::Unit &u) {
  for (const auto &r : resolutions())
    if (r.unit == u)
      return r;
  return resolutions()[0];
}
Variable dated(Rng &rng, const Dimensions &dims, const Res &r) {
  Spec s;
  s.unit = r.unit;
  auto v = copy(rand_var(rng, dtype<time_point>, dims, s));
  each_index(dims, [&](const IndexMap &at) { raw_set<time_point>(v, at, time_point(rand_count(rng, r))); });
  return rng.chance(1, 2) ? relayout(rng, v) : v;
}
// text of every kind of object: no error, the same twice, object as before
template <class T, class F> std::string text_of_object(const std::string &what, const T &x, F &&before) {
  using scipp::core::to_string;
  const std::string was = before(x);
  std::string a, b;
  const auto e = error_of([&] {
    a = to_string(x);
    std::ostringstream s;
    s << x;
    b = s.str();
  });
  CHECK("error", !e, "converting " << what << " to text gave " << e.value_or("") << ": " << brief(was));
  CHECK("object changed", before(x) == was, "converting " << what << " to text changed it: " << diff(before(x), was));
  CHECK("texts differ", a == b, what << ": '" << a << "' but streamed '" << b << "'");
  CHECK("empty text", !a.empty(), what);
  return a;
}
bool has(const std::string &s, const std::string &part) { return s.find(part) != std::string::npos; }
} // namespace

SUITE(dates) {
  for (int k = 0; k < 40; ++k) {
    const auto &r = resolution(rng);
    const auto count = rand_count(rng, r);
    std::string got;
    const auto e = error_of([&] { got = core::to_iso_date(time_point(count), r.unit); });
    CHECK("error", !e, "date of " << count << ' ' << r.name << " gave " << e.value_or(""));
    const auto want = expected_date(count, r);
    if (want.empty()) {
      CHECK("empty", !got.empty(), count << ' ' << r.name);
      obs("far dates");
    } else {
      CHECK("date", got == want, "date of " << count << ' ' << r.name << " since the epoch is " << got << " instead of " << want);
      obs(count < 0 ? "dates before 1970" : "dates after 1970");
      obs("dates: " + r.name);
    }
    nontrivial(r.name + std::to_string(count % 1000));
  }
}

SUITE(elements) { // arrays of elements of every simple type
  const auto type = rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<std::string>, dtype<time_point>, dtype<scipp::index_pair>});
  const auto &r = resolution(rng);
  const Dimensions dims = rng.chance(1, 6) ? Dimensions() : rng.chance(1, 2) ? Dimensions(Dim("x"), rng.in(0, 9)) : rand_dims(rng, 3, 4);
  Spec s;
  s.unit = type == dtype<time_point> ? r.unit : rng.pick({units::one, units::m, units::none});
  s.variances = floating(type) && rng.chance(1, 2);
  s.specials = rng.chance(1, 3);
  auto v = type == dtype<time_point> ? dated(rng, dims, r) : rand_var(rng, type, dims, s);
  if (type == dtype<std::string> && dims.volume() > 0 && rng.chance(1, 3)) {
    v = copy(v);
    each_index(dims, [&](const IndexMap &at) {
      if (rng.chance(1, 2))
        raw_set<std::string>(v, at, std::string(size_t(rng.in(70, 90)), 'a') + "\"\n\t%s");
    });
  }
  std::vector<std::string> values, variances;
  bool known = true;
  for_dtype(type, [&](auto tag) {
    using T = typename decltype(tag)::type;
    each_index(dims, [&](const IndexMap &at) {
      if constexpr (std::is_same_v<T, Vec3> || std::is_same_v<T, Mat3> || std::is_same_v<T, Aff3> || std::is_same_v<T, Quaternion> || std::is_same_v<T, Translation> || std::is_same_v<T, scipp::index_pair>) {
        known = false;
      } else {
        values.push_back(element(raw_value<T>(v, at), resolution_of(v.unit())));
        if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>)
          if (v.has_variances())
            variances.push_back(element(raw_variance<T>(v, at), r));
      }
    });
  });
  const auto text = text_of_object("variable", v, [](const Variable &x) { return full(x); });
  for (const auto &x : values)
    known = known && !x.empty();
  if (known) {
    const auto want = dims.ndim() == 0 ? values.at(0) : shown(values);
    CHECK("values", has(text, "  " + want), "text of " << full(v) << " does not show " << want << ": " << text);
    if (v.has_variances()) {
      const auto want2 = dims.ndim() == 0 ? variances.at(0) : shown(variances);
      CHECK("variances", has(text, want + "  " + want2), "text of " << full(v) << " does not show the variances " << want2 << ": " << text);
      obs("variances shown");
    }
    obs(values.size() > 4 ? "long arrays shown" : "short arrays shown");
  }
  for (const auto &l : dims.labels())
    CHECK("dims", has(text, l.name() + ": " + std::to_string(dims[l])), text);
  CHECK("type", has(text, core::to_string(type)), text);
  if (v.unit() != units::none)
    CHECK("unit", has(text, '[' + v.unit().name() + ']'), text);
  nontrivial(core::to_string(type) + text.substr(0, 60));
}

SUITE(variables) { // every type and layout, with and without events, nested
  const auto dims = rand_dims(rng, 4, 4);
  Spec s;
  s.unit = rng.chance(1, 2) ? units::one : units::Unit(rng.pick({"m", "counts*angstrom^2", "1/(s*K)", "deg"}));
  s.specials = rng.chance(1, 3);
  const auto &r = resolution(rng);
  const auto gen = [&](const Dimensions &d) -> Variable {
    switch (rng.in(0, 5)) {
    case 0: {
      ArraySpec as;
      return rand_table_bins(rng, d, as, 3);
    }
    case 1:
      return rand_bins(rng, dtype<double>, d, s, 4);
    case 2:
      return dated(rng, d, r);
    default: {
      const auto type = rng.pick({dtype<double>, dtype<std::string>, dtype<bool>, dtype<Vec3>, dtype<Mat3>, dtype<Aff3>, dtype<Quaternion>, dtype<Translation>, dtype<scipp::index_pair>});
      auto t = s;
      t.variances = floating(type) && rng.chance(1, 2);
      return rand_var(rng, type, d, t);
    }
    }
  };
  auto v = gen(dims);
  if (dims.ndim() > 0 && rng.chance(1, 3)) {
    const auto ls = label_list(dims);
    const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    const auto n = dims[d];
    const auto from = n == 0 ? 0 : rng.in(0, n - 1);
    v = n > 0 && rng.chance(1, 2) ? v.slice({d, from}) : v.slice({d, from, rng.in(from, n)});
  }
  const auto before = [](const Variable &x) { return full(x); };
  const auto text = text_of_object("variable", v, before);
  CHECK("type", has(text, core::to_string(v.dtype())), text);
  for (const auto &l : v.dims().labels())
    CHECK("dims", has(text, l.name() + ": " + std::to_string(v.dims()[l])), text);
  (void)variable::format_variable(v, Sizes(dims));
  (void)variable::format_variable_compact(v);
  (void)variable::to_string(std::pair(Dim("x"), v));
  (void)variable::to_string(std::pair(std::string("x"), v));
  (void)variable::format_variable_like(v);
  // elements which are themselves variables, arrays or datasets
  const auto inner = full(v);
  const auto wrapped = makeVariable<Variable>(Dims{Dim("outer")}, Shape{2}, Values{v, v});
  (void)text_of_object("variable of variables", wrapped, [&](const Variable &) { return full(v); });
  if (rng.chance(1, 2)) {
    DataArray a(v);
    a.setName("name");
    const auto arrays = makeVariable<DataArray>(Dims{Dim("outer")}, Shape{1}, Values{a});
    (void)text_of_object("variable of arrays", arrays, [&](const Variable &) { return full(a); });
    const auto set = Dataset(a);
    const auto sets = makeVariable<Dataset>(Values{set});
    (void)text_of_object("variable of datasets", sets, [&](const Variable &) { return full(set); });
    obs("nested");
  }
  CHECK("inner changed", full(v) == inner, diff(full(v), inner));
  if (rng.chance(1, 20)) {
    Variable invalid;
    const auto e = error_of([&] { (void)variable::to_string(invalid); });
    CHECK("error", !e, "text of an invalid variable gave " << e.value_or(""));
  }
  obs("variables printed");
  nontrivial(core::to_string(v.dtype()) + text.substr(0, 60));
}

SUITE(arrays) {
  const auto dims = rand_dims(rng, 3, 4);
  ArraySpec s;
  auto a = rand_array(rng, dims, s, rng.chance(1, 2) ? "name" : "");
  if (rng.chance(1, 4)) {
    const auto key = Dim(rng.pick({"", "verif-a very long name of a coordinate", "t", "näme"}));
    (void)error_of([&] { a.coords().set(key, dated(rng, dims, resolution(rng))); });
  }
  if (rng.chance(1, 3) && dims.ndim() > 0) {
    const auto ls = label_list(dims);
    const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    const auto n = dims[d];
    const auto from = n == 0 ? 0 : rng.in(0, n - 1);
    (void)error_of([&] { a = n > 0 && rng.chance(1, 2) ? a.slice({d, from}) : a.slice({d, from, rng.in(from, n)}); });
  }
  const auto text = text_of_object("array", a, [](const DataArray &x) { return full(x); });
  for (const auto &[k, c] : a.coords()) {
    CHECK("coord shown", has(text, k.name()), k.name() << " is not in " << text);
    if (!k.name().empty())
      CHECK("alignment shown", has(text, (c.is_aligned() ? "* " : "  ") + k.name()), k.name() << " in " << text);
  }
  for (const auto &[k, m] : a.masks()) {
    (void)m;
    CHECK("mask shown", has(text, k), k << " is not in " << text);
  }
  (void)dataset::to_string(a.coords());
  (void)dataset::to_string(a.masks());
  (void)dataset::dict_keys_to_string(a.coords());
  (void)dataset::dict_keys_to_string(a.masks());
  obs("arrays printed");
  // datasets
  auto d = rand_dataset(rng, dims, s);
  if (rng.chance(1, 3) && dims.ndim() > 0) {
    const auto ls = label_list(dims);
    const auto l = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    if (dims[l] > 0)
      (void)error_of([&] { d = d.slice({l, rng.in(0, dims[l] - 1)}); });
  }
  const auto dt = text_of_object("dataset", d, [](const Dataset &x) { return full(x); });
  for (const auto &item : d)
    CHECK("item shown", has(dt, item.name()), item.name() << " is not in " << dt);
  for (const auto &[k, c] : d.coords()) {
    (void)c;
    CHECK("coord shown", has(dt, k.name()), k.name() << " is not in " << dt);
  }
  (void)dataset::dict_keys_to_string(d);
  obs("datasets printed");
  nontrivial(text.substr(0, 200));
}

SUITE(small) { // shapes, slices, units, names
  const auto dims = rand_dims(rng, 5, 5);
  const auto t = core::to_string(dims);
  std::string want = "(";
  for (const auto &l : dims.labels())
    want += (want.size() > 1 ? ", " : "") + l.name() + ": " + std::to_string(dims[l]);
  want += ")";
  CHECK("dims", t == want, t << " instead of " << want);
  (void)core::to_string(Sizes(dims));
  std::string labels = "(";
  for (const auto &l : dims.labels())
    labels += (labels.size() > 1 ? ", " : "") + l.name();
  CHECK("labels", core::labels_to_string(dims) == labels + ")", core::labels_to_string(dims));
  const Dim d = vdim(int(rng.in(0, 6)));
  const int64_t b = rng.in(0, 1000), n = rng.in(0, 1000);
  CHECK("point slice", core::to_string(Slice(d, b)) == "Slice(" + d.name() + ", " + std::to_string(b) + ")", core::to_string(Slice(d, b)));
  CHECK("range slice", core::to_string(Slice(d, b, b + n)) == "Slice(" + d.name() + ", " + std::to_string(b) + ", " + std::to_string(b + n) + ")", core::to_string(Slice(d, b, b + n)));
  (void)core::to_string(Slice{});
  (void)core::to_string(scipp::index_pair(int64_t(rng.next()), int64_t(rng.next())));
  (void)to_string(Dim::Invalid);
  CHECK("name", to_string(d) == d.name(), to_string(d));
  auto u = units::one;
  for (int k = 0; k < 4; ++k) {
    const auto f = units::Unit(rng.pick({"m", "s", "kg", "K", "counts", "deg", "angstrom", "meV", "us", "1e-7 J", "%", "EQXUN[3]"}));
    const auto e = error_of([&] { u = rng.chance(1, 2) ? u * f : rng.chance(1, 2) ? u / f : sqrt(u); });
    (void)e;
  }
  std::string a, c;
  const auto e = error_of([&] {
    a = to_string(u);
    c = u.name();
  });
  CHECK("unit", !e && !a.empty() && a == c, "text of unit: '" << a << "', '" << c << "' " << e.value_or(""));
  (void)to_string(units::none);
  obs("shapes and slices");
  obs("units printed");
  nontrivial(t + a);
}

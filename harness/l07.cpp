// L07: the stamp-sorted store under histories.
#include "pbt.hpp"
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include "lidar_feature_localization/stamp_sorted_objects.hpp"

namespace
{
const double INF = std::numeric_limits<double>::infinity();
// stamps: small integers and ties half way, fractions, nanoseconds since the epoch, extremes
double stamp(pbt::Case & c, int kind)
{
  switch (kind) {
    case 0: return static_cast<double>(c.range(-6, 6));
    case 1: return c.num(100.);
    case 2: return static_cast<double>(1790000000000000000LL + c.range(-10, 10) * 100000000LL + c.range(-3, 3));
    default: return c.pick({0., -0., 1e-300, -1e-300, 1e300, -1e300, 1., -1., std::numeric_limits<double>::max(), -std::numeric_limits<double>::max()});
  }
}
double query(pbt::Case & c, int kind, const std::map<double, int> & model)
{
  if (c.coin() || model.empty()) {return kind == 0 ? c.range(-14, 14) * 0.5 : stamp(c, kind);}
  auto it = model.begin();
  std::advance(it, c.below(model.size()));
  switch (c.below(4)) {
    case 0: return it->first;
    case 1: return std::nextafter(it->first, -INF);
    case 2: return std::nextafter(it->first, INF);
    default: {auto next = std::next(it); return next == model.end() ? it->first + 1. : it->first / 2. + next->first / 2.;}
  }
}
struct Payload
{
  int id = -1;
  std::string text;
};
}  // namespace

PROP(history_matches_an_ordered_map, 60000)
{
  StampSortedObjects<Payload> store;
  std::map<double, int> model;
  const int kind = static_cast<int>(c.below(4)), n = static_cast<int>(c.size(1, 40, 400));
  std::string log;
  bool cut = false, looked = false;
  auto text = [](int id) {return "object " + std::to_string(id) + " with a text that does not fit into the string itself";};
  auto lookup = [&](double q) {
    const auto [t, o] = store.GetClosest(q);
    CHECK(model.count(t) == 1, << "closest to " << pbt::show(q) << " is " << pbt::show(t) << ", which is not stored;" << log);
    CHECK_EQ(o.id, model[t], << "object at " << pbt::show(t) << ";" << log); CHECK_EQ(o.text, text(o.id));
    for (const auto & [s, id] : model) {
      (void)id;
      CHECK(std::fabs(t - q) <= std::fabs(s - q), << "closest to " << pbt::show(q) << " is " << pbt::show(t) << ", but " << pbt::show(s) << " is stored;" << log);
    }
  };
  for (int k = 0; k < n; k++) {
    const auto op = c.below(8);
    if (op < 4) {
      const double t = stamp(c, kind);
      store.Insert(t, Payload{k, text(k)});
      model[t] = k;
      log += " insert " + pbt::show(t);
    } else if (op < 6 && !model.empty()) {
      lookup(query(c, kind, model));
      looked = looked || model.size() > 1;
    } else if (op == 6) {
      const double t = query(c, kind, model);
      store.RemoveOlderThan(t);
      const std::size_t before = model.size();
      model.erase(model.upper_bound(t), model.end());
      cut = cut || (model.size() < before);
      c.label("removed all", before > 0 && model.empty());
      log += " remove beyond " + pbt::show(t);
    }
    CHECK_EQ(store.Size(), model.size(), << "after" << log);
  }
  // the whole content, in order
  for (const auto & [t, id] : model) {
    const auto [s, o] = store.GetClosest(t);
    CHECK(s == t && o.id == id, << "the entry of " << pbt::show(t) << " is gone;" << log);
    lookup(query(c, kind, model));
  }
  c.note() << log;
  c.nontrivial(cut && looked);
}

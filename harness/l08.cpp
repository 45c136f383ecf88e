// L08: recent scans, the local map, odometry over it.
#include "gen.hpp"
#include <memory>
#include <tuple>
#include <vector>
#include <pcl/point_cloud.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
#include "lidar_feature_localization/recent_scans.hpp"

namespace
{
using Eigen::Isometry3d;
using Eigen::Vector3d;
template<class T> using Cloud = pcl::PointCloud<T>;

// a point that can be told apart from all others, wherever it is moved
struct Scan
{
  std::vector<Vector3d> at;   // in the map
  int id = 0;
};
void tag(PointXYZIR & p, int i, int k) {p.ring = static_cast<std::uint16_t>(i); p.intensity = static_cast<float>(k);}
void tag(PointXYZCR & p, int i, int k) {p.ring = static_cast<std::uint16_t>(i); p.curvature = static_cast<float>(k);}
int tag_of(const PointXYZIR & p) {return p.ring * 1000 + static_cast<int>(p.intensity);}
int tag_of(const PointXYZCR & p) {return p.ring * 1000 + static_cast<int>(p.curvature);}

template<class T>
typename Cloud<T>::Ptr scan(pbt::Case & c, int id)
{
  typename Cloud<T>::Ptr s(new Cloud<T>());
  for (int n = static_cast<int>(c.size(0, 6)), k = 0; k < n; k++) {
    T p;
    p.x = static_cast<float>(c.num(20.)); p.y = static_cast<float>(c.num(20.)); p.z = static_cast<float>(c.num(5.));
    tag(p, id, k);
    s->push_back(p);
  }
  return s;
}
template<class T>
Scan moved(const Cloud<T> & s, const Isometry3d & pose, int id)
{
  Scan m;
  m.id = id;
  for (const auto & p : s) {m.at.push_back(pose.linear() * Vector3d(p.x, p.y, p.z) + pose.translation());}
  return m;
}
template<class T>
void check_map(const Cloud<T> & map, const std::vector<Scan> & scans, std::size_t first, const std::string & what)
{
  std::size_t k = 0;
  for (std::size_t i = first; i < scans.size(); i++) {
    for (std::size_t j = 0; j < scans[i].at.size(); j++, k++) {
      CHECK(k < map.size(), << what << ": point " << j << " of scan " << i << " is missing, of " << scans.size() << " scans");
      CHECK_EQ(tag_of(map[k]), scans[i].id * 1000 + static_cast<int>(j), << what << ": point " << k << " belongs to another scan (first wanted: " << first << ")");
      CHECK_MAT(Vector3d(map[k].x, map[k].y, map[k].z), scans[i].at[j], 1e-5 * (1. + scans[i].at[j].norm()), 0., << what << ": point " << j << " of scan " << i);
    }
  }
  CHECK_EQ(map.size(), k, << what << ": points, first scan " << first << " of " << scans.size());
}
Isometry3d pose(pbt::Case & c)
{
  Isometry3d T = gen::iso(c, 50.);
  return T;
}
template<class T>
void check_store(pbt::Case & c)
{
  RecentScans<T> store;
  const int window = static_cast<int>(c.chance(1, 50) ? c.range(9, 300) : c.range(0, 8));
  PointCloudMap<T> local(window);
  std::vector<Scan> model;
  CHECK(store.IsEmpty() && local.IsEmpty(), << "not empty at first");
  CHECK(store.GetAll()->empty() && store.GetRecent(static_cast<int>(c.range(0, 5)))->empty() && local.GetRecent()->empty(), << "points out of nothing");
  const int n = static_cast<int>(c.size(0, 20, 400, 200));
  for (int i = 0; i < n; i++) {
    const Isometry3d p = pose(c);
    const auto s = scan<T>(c, i);
    const Cloud<T> before = *s;
    store.Add(p, s); local.Add(p, s);
    model.push_back(moved(*s, p, i));
    CHECK_EQ(s->size(), before.size(), << "the scan changed");
    for (std::size_t k = 0; k < before.size(); k++) {CHECK(before[k].x == (*s)[k].x && before[k].y == (*s)[k].y && before[k].z == (*s)[k].z, << "the scan changed");}
    // what was stored does not follow later changes of the caller's cloud
    for (auto & q : *s) {q.x += 1000.f;}
    CHECK(!store.IsEmpty() && !local.IsEmpty(), << "empty after " << i + 1 << " scans");
    if (c.chance(1, 2) || i == n - 1) {
      const int m = static_cast<int>(c.pick<std::int64_t>({c.range(0, 25), c.range(0, 400), static_cast<std::int64_t>(model.size()), window, 1, 0}));
      check_map(*store.GetRecent(m), model, model.size() - std::min<std::size_t>(m, model.size()), "last " + std::to_string(m));
      check_map(*store.GetAll(), model, 0, "all");
      const auto got = local.GetRecent();
      check_map(*got, model, model.size() - std::min<std::size_t>(window, model.size()), "local map of " + std::to_string(window));
      // a returned map is the caller's
      for (auto & q : *got) {q.x = -1.f;}
      check_map(*local.GetRecent(), model, model.size() - std::min<std::size_t>(window, model.size()), "local map, second look");
    }
  }
  c.label("window exceeded", n > window);
  c.nontrivial(n > 1 && window > 0);
}

// a pose updater that records what it is given: the recent map of the moment and the previous pose
struct Seen {std::vector<int> tags; std::vector<Vector3d> points;};
std::vector<Seen> * g_seen = nullptr;
class Updater
{
public:
  using Map = Cloud<PointXYZIR>;
  using Step = std::pair<Map::Ptr, Isometry3d>;   // the scan and the motion it reports
  explicit Updater(const Map::Ptr & map)
  {
    Seen s;
    for (const auto & p : *map) {s.tags.push_back(tag_of(p)); s.points.push_back(Vector3d(p.x, p.y, p.z));}
    g_seen->push_back(s);
  }
  Isometry3d operator()(const Step & scan, const Isometry3d & pose) const {return pose * scan.second;}
};
// the map of such scans
class StepMap
{
public:
  explicit StepMap(int n) : map_(n) {}
  bool IsEmpty() const {return map_.IsEmpty();}
  void Add(const Isometry3d & pose, const Updater::Step & scan) {poses.push_back(pose); map_.Add(pose, scan.first);}
  Updater::Map::Ptr GetRecent() const {return map_.GetRecent();}
  std::vector<Isometry3d> poses;

private:
  PointCloudMap<PointXYZIR> map_;
};
}  // namespace

PROP(recent_scans_and_local_map, 20000)
{
  if (c.coin()) {check_store<PointXYZIR>(c);} else {check_store<PointXYZCR>(c);}
}

PROP(clouds_are_merged_in_order, 20000)
{
  std::vector<Cloud<PointXYZIR>::Ptr> clouds;
  std::vector<Scan> model;
  const int n = static_cast<int>(c.size(0, 8, 400, 200));
  for (int i = 0; i < n; i++) {clouds.push_back(scan<PointXYZIR>(c, i)); model.push_back(moved(*clouds.back(), Isometry3d::Identity(), i));}
  const auto merged = MergeClouds<PointXYZIR>(clouds);
  check_map(*merged, model, 0, "merged");
  for (int i = 0; i < n; i++) {CHECK_EQ(clouds[i]->size(), model[i].at.size(), << "input " << i << " changed"); CHECK(clouds[i].get() != merged.get(), << "alias of an input");}
  c.nontrivial(n > 1);
}

PROP(odometry_accumulates_over_the_recent_map, 15000)
{
  std::vector<Seen> seen;
  g_seen = &seen;
  const int window = static_cast<int>(c.chance(1, 50) ? c.range(7, 200) : c.range(1, 6));
  auto map = std::make_shared<StepMap>(window);
  const bool prefilled = c.chance(1, 5);
  std::vector<Scan> model;
  int id = 0;
  if (prefilled) {
    const Isometry3d p = pose(c);
    const auto s = scan<PointXYZIR>(c, id);
    map->Add(p, {s, Isometry3d::Identity()});
    model.push_back(moved(*s, p, id++));
  }
  Odometry<Updater, StepMap, Updater::Step> odometry(map);
  CHECK_MAT(odometry.CurrentPose().matrix(), Eigen::Matrix4d::Identity(), 0., 0., << "before the first scan");
  Isometry3d truth = Isometry3d::Identity();
  const int n = static_cast<int>(c.size(1, 15, 300, 200));
  for (int i = 0; i < n; i++) {
    const Isometry3d step = gen::iso(c, 3.);
    const auto s = scan<PointXYZIR>(c, id);
    const std::size_t calls = seen.size();
    odometry.Update({s, step});
    if (i == 0 && !prefilled) {
      CHECK_EQ(seen.size(), calls, << "pose update without a map");
    } else {
      truth = truth * step;
      CHECK_EQ(seen.size(), calls + 1, << "pose updates for scan " << i);
      Cloud<PointXYZIR> got;
      for (std::size_t k = 0; k < seen.back().points.size(); k++) {
        PointXYZIR p;
        p.x = static_cast<float>(seen.back().points[k](0)); p.y = static_cast<float>(seen.back().points[k](1)); p.z = static_cast<float>(seen.back().points[k](2));
        tag(p, seen.back().tags[k] / 1000, seen.back().tags[k] % 1000);
        got.push_back(p);
      }
      check_map(got, model, model.size() - std::min<std::size_t>(window, model.size()), "map used for scan " + std::to_string(i));
    }
    const double tol = 1e-9 * (1. + i) * (1. + truth.translation().norm());
    CHECK_MAT(odometry.CurrentPose().matrix(), truth.matrix(), tol, 0., << "pose after scan " << i);
    CHECK_EQ(map->poses.size(), static_cast<std::size_t>(i + 1 + prefilled), << "scans in the map");
    CHECK_MAT(map->poses.back().matrix(), truth.matrix(), tol, 0., << "pose at which scan " << i << " was added");
    model.push_back(moved(*s, truth, id++));
  }
  g_seen = nullptr;
  c.nontrivial(n > window);
}

// E06: the extraction node, message in, messages out.
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <numeric>
#include <rclcpp/rclcpp.hpp>
#include <pcl_conversions/pcl_conversions.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/index_range.hpp"

int app_main(int argc, char * argv[]);

namespace
{
using sensor_msgs::msg::PointCloud2;
const double RAD = M_PI / 180.;

struct Params
{
  int padding = 5, blocks = 6;
  double degree = 2.0, jump = 0.3, ratio = 0.02, edge = 0.05, surface = 0.05, lo = 0.1, hi = 100.;
};
struct Pt {float x, y, z; int ring; double az;};
using Row = std::array<float, 6>;   // x y z r g b

Params params(pbt::Case & c)
{
  Params p;
  if (c.coin()) {
    p.padding = static_cast<int>(c.range(1, 6));
    p.blocks = static_cast<int>(c.range(1, 6));
    p.degree = c.pick({1.0, 2.0, 5.0});
    p.jump = c.pos(0.05, 3.);
    p.ratio = c.pos(0.005, 0.5);
    p.edge = c.pos(1e-3, 10.);
    p.surface = c.coin() ? p.edge : c.pos(1e-3, 10.);
    p.lo = c.pos(0.01, 5.);
    p.hi = p.lo + c.pos(1., 100.);
  }
  auto & s = ros_stub::state().params;
  s.clear();
  s["convolution_padding"] = static_cast<std::int64_t>(p.padding);
  s["n_blocks"] = static_cast<std::int64_t>(p.blocks);
  s["neighbor_degree_threshold"] = p.degree;
  s["distance_diff_threshold"] = p.jump;
  s["parallel_beam_min_range_ratio"] = p.ratio;
  s["edge_threshold"] = p.edge;
  s["surface_threshold"] = p.surface;
  s["min_range"] = p.lo;
  s["max_range"] = p.hi;
  return p;
}

// one scan line in azimuth order; with full as long as a real one
std::vector<Pt> line(pbt::Case & c, const Params & p, int ring, bool full = false)
{
  std::vector<Pt> v;
  const int n = static_cast<int>(full ? c.range(300, 2500) : c.chance(1, 5) ? c.range(1, 2 * p.padding + 2 * p.blocks + 1) : c.range(1, 110));
  const double noise = c.pos(full ? 3e-3 : 1e-4, 0.1);
  const double dense = full ? std::min(1., 2. * M_PI / n / (0.5 * p.degree * RAD)) : 1.;
  const int jumps = c.pick({4, 10, 30}), breaks = c.pick({5, 15, 1000});
  double a = -M_PI + 0.01 + c.real(0, 1.), r = c.pos(0.5, 30.), slope = 0.;
  for (int i = 0; i < n; i++) {
    if (i > 0) {
      a += p.degree * RAD * (c.chance(1, full ? 10 * breaks : breaks) ? c.real(1.2, 6.) : dense * c.real(0.1, 0.9));
      if (c.chance(1, jumps)) {r = c.chance(1, 6) ? c.pos(1e-2, 300.) : std::max(0.2, r + c.real(-3, 3));}
      if (c.chance(1, 8)) {slope = c.real(-0.1, 0.1);}
      r = std::max(0.05, r + slope);
    }
    if (a > M_PI - 0.01) {break;}
    const double q = r * (1. + noise * c.real(-1, 1));
    v.push_back({static_cast<float>(q * std::cos(a)), static_cast<float>(q * std::sin(a)), static_cast<float>(c.num(3.)), ring, a});
  }
  return v;
}

PointCloud2 message(pbt::Case & c, const std::vector<Pt> & pts, int stamp)
{
  PointCloud2 m;
  // also unset, repeated, late and far stamps: nothing but the output header may depend on them
  m.header.stamp.sec = c.chance(1, 4) ? c.pick({0, 10, 100 - stamp, 2147483647}) : stamp;
  m.header.stamp.nanosec = static_cast<std::uint32_t>(c.chance(1, 3) ? c.pick({0, 999999999}) : c.below(1000000000));
  m.header.frame_id = c.pick({std::string("velodyne"), std::string("lidar"), std::string("")});
  m.height = 1;
  m.width = static_cast<std::uint32_t>(pts.size());
  m.is_dense = true;
  // field layouts a driver or the point type converter sends
  const int layout = static_cast<int>(c.below(3));
  std::array<std::uint32_t, 5> o{};   // x y z intensity ring
  if (layout == 0) {o = {0, 4, 8, 16, 20}; m.point_step = 32;}
  if (layout == 1) {o = {0, 4, 8, 12, 16}; m.point_step = 22;}
  if (layout == 2) {o = {8, 12, 16, 2, 0}; m.point_step = 20; o[3] = 4;}
  const char * names[] = {"x", "y", "z", "intensity", "ring"};
  for (int i = 0; i < 5; i++) {
    sensor_msgs::msg::PointField f;
    f.name = names[i]; f.offset = o[i]; f.count = 1;
    f.datatype = i == 4 ? sensor_msgs::msg::PointField::UINT16 : sensor_msgs::msg::PointField::FLOAT32;
    m.fields.push_back(f);
  }
  m.row_step = m.point_step * m.width;
  m.data.assign(m.row_step, 0xAB);
  for (std::size_t i = 0; i < pts.size(); i++) {
    std::uint8_t * d = m.data.data() + i * m.point_step;
    const float in = 7.f;
    const std::uint16_t ring = static_cast<std::uint16_t>(pts[i].ring);
    std::memcpy(d + o[0], &pts[i].x, 4);
    std::memcpy(d + o[1], &pts[i].y, 4);
    std::memcpy(d + o[2], &pts[i].z, 4);
    std::memcpy(d + o[3], &in, 4);
    std::memcpy(d + o[4], &ring, 2);
  }
  return m;
}

// ---- reference --------------------------------------------------------------
enum L {NONE, EDGE, EDGE_NB, SURF, SURF_NB, OUT, OCC, PAR};
void mark(std::vector<int> & l, const std::vector<char> & link, int b, int e, int i, int pad, int v)
{
  for (int j = i; j > b && i - j < pad && link[j - 1]; ) {l[--j] = v;}
  for (int j = i; j + 1 < e && j - i < pad && link[j]; ) {l[++j] = v;}
}
void ambiguous(bool b) {if (b) {throw pbt::Discard{};}}

// false: the line is too short
bool reference(const Params & p, const std::vector<Pt> & v, std::vector<int> & l)
{
  const int n = static_cast<int>(v.size()), pad = p.padding;
  l.assign(n, NONE);
  const int inner = n - 2 * pad;
  if (inner < 1 || inner / p.blocks < 2) {return false;}
  std::vector<double> r(n), curv(n, 0.);
  std::vector<char> link(n, 0);
  for (int i = 0; i < n; i++) {r[i] = std::sqrt(static_cast<double>(v[i].x) * v[i].x + static_cast<double>(v[i].y) * v[i].y);}
  for (int i = 0; i + 1 < n; i++) {link[i] = v[i + 1].az - v[i].az < p.degree * RAD;}
  for (int i = pad; i < n - pad; i++) {
    double s = -2. * pad * r[i];
    for (int k = 1; k <= pad; k++) {s += r[i - k] + r[i + k];}
    curv[i] = s * s;
    for (const double t : {p.edge, p.surface}) {ambiguous(pbt::nearly(curv[i], t, 0., 1e-9));}
  }
  const IndexRange blocks(pad, n - pad, p.blocks);
  for (int k = 0; k < p.blocks; k++) {
    const int b = blocks.Begin(k), e = blocks.End(k);
    std::vector<int> idx(e - b);
    std::iota(idx.begin(), idx.end(), b);
    std::sort(idx.begin(), idx.end(), [&](int x, int y) {return curv[x] < curv[y];});
    for (std::size_t i = 1; i < idx.size(); i++) {ambiguous(pbt::nearly(curv[idx[i - 1]], curv[idx[i]], 1e-11, 1e-9));}
    for (auto it = idx.rbegin(); it != idx.rend(); ++it) {
      if (l[*it] == NONE && curv[*it] >= p.edge) {mark(l, link, b, e, *it, pad, EDGE_NB); l[*it] = EDGE;}
    }
    for (const int i : idx) {
      if (l[i] == NONE && curv[i] <= p.surface) {mark(l, link, b, e, i, pad, SURF_NB); l[i] = SURF;}
    }
  }
  for (int i = 0; i + 1 < n; i++) {
    if (!link[i]) {continue;}
    ambiguous(std::fabs(std::fabs(r[i + 1] - r[i]) - p.jump) < 1e-6);
    if (r[i + 1] > r[i] + p.jump && i + 1 + pad < n) {
      for (int j = i + 1; j <= i + 1 + pad; j++) {l[j] = OCC; if (!link[j]) {break;}}
    }
    if (r[i] > r[i + 1] + p.jump && i - pad >= 0) {
      for (int j = i; j >= i - pad; j--) {l[j] = OCC; if (j == 0 || !link[j - 1]) {break;}}
    }
  }
  for (int i = 0; i < n; i++) {
    ambiguous(std::fabs(r[i] - p.lo) < 1e-6 || std::fabs(r[i] - p.hi) < 1e-6);
    if (r[i] < p.lo || r[i] > p.hi) {l[i] = OUT;}
  }
  for (int i = 1; i + 1 < n; i++) {
    const double a = std::fabs(r[i - 1] - r[i]), b = std::fabs(r[i + 1] - r[i]), t = p.ratio * r[i];
    ambiguous(std::fabs(a - t) < 1e-5 * r[i] || std::fabs(b - t) < 1e-5 * r[i]);
    if (a > t && b > t) {l[i] = PAR;}
  }
  return true;
}
const int COLORS[][3] = {{255, 255, 255}, {255, 0, 0}, {255, 63, 0}, {255, 0, 0}, {255, 63, 0}, {127, 127, 127}, {255, 0, 255}, {0, 255, 0}};

// of many long lines one is always ambiguous: take the others
std::vector<Pt> clear_line(pbt::Case & c, const Params & p, int ring)
{
  for (int k = 0; k < 30; k++) {
    std::vector<int> lab;
    const auto l = line(c, p, ring, true);
    try {reference(p, l, lab); return l;} catch (const pbt::Discard &) {}
  }
  return {};
}

struct Expected {std::vector<Row> edge, surface, colored;};
struct Scan {PointCloud2 msg; Expected want; int lines = 0, used = 0;};

Scan scan(pbt::Case & c, const Params & p, int stamp, int full_lines = 0)
{
  Scan s;
  std::vector<std::vector<Pt>> lines;
  const int n = full_lines ? full_lines : static_cast<int>(c.range(0, 5)), ring0 = full_lines ? c.pick({0, 65536 - full_lines}) : c.pick({0, 30, 65530});
  std::size_t total = 0;
  for (int i = 0; i < n; i++) {
    auto l = full_lines ? clear_line(c, p, ring0 + i) : line(c, p, ring0 + i);
    std::vector<int> lab;
    bool ok = reference(p, l, lab);
    s.lines++;
    if (c.chance(1, 12)) {
      // two returns at the origin next to each other: the line has no defined directions there
      for (auto & q : l) {q.az = -1;}
      l.push_back({0.f, 0.f, 0.f, ring0 + i, 0.});
      l.push_back({0.f, 0.f, 1.f, ring0 + i, 0.});
      ok = false;
    }
    if (ok) {
      s.used++;
      for (std::size_t k = 0; k < l.size(); k++) {
        const auto col = COLORS[lab[k]];
        s.want.colored.push_back({l[k].x, l[k].y, l[k].z, static_cast<float>(col[0]), static_cast<float>(col[1]), static_cast<float>(col[2])});
        if (lab[k] == EDGE) {s.want.edge.push_back({l[k].x, l[k].y, l[k].z});}
        if (lab[k] == SURF) {s.want.surface.push_back({l[k].x, l[k].y, l[k].z});}
      }
    }
    total += l.size();
    lines.push_back(l);
  }
  // the lines arrive interleaved and each rotated by a start angle (or shuffled)
  std::vector<Pt> all;
  if (c.coin()) {
    for (auto & l : lines) {all.insert(all.end(), l.begin(), l.end());}
    std::vector<Pt> shuffled;
    for (const auto i : c.permutation(all.size())) {shuffled.push_back(all[i]);}
    all = shuffled;
  } else {
    std::vector<std::size_t> start(lines.size(), 0);
    for (std::size_t i = 0; i < lines.size(); i++) {
      if (!lines[i].empty()) {std::rotate(lines[i].begin(), lines[i].begin() + c.below(lines[i].size()), lines[i].end());}
    }
    for (std::size_t k = 0; all.size() < total; k++) {
      for (auto & l : lines) {if (k < l.size()) {all.push_back(l[k]);}}
    }
  }
  s.msg = message(c, all, stamp);
  return s;
}

struct Outputs {std::vector<PointCloud2> edge, surface, colored;};
// runs the node's process on these messages
Outputs process(const std::vector<PointCloud2> & in)
{
  Outputs out;
  const auto keep = ros_stub::state().params;
  ros_stub::reset();
  ros_stub::state().params = keep;
  ros_stub::state().spin_hook = [&] {
      ros_stub::Recorder<PointCloud2> e("scan_edge"), s("scan_surface"), col("colored_scan");
      for (std::size_t i = 0; i < in.size(); i++) {
        ros_stub::send("points_raw", in[i]);
        CHECK(e.msgs.size() == i + 1 && s.msgs.size() == i + 1 && col.msgs.size() == i + 1,
          << "after " << i + 1 << " scans: " << e.msgs.size() << " edge, " << s.msgs.size() << " surface, " << col.msgs.size() << " coloured clouds");
      }
      out.edge = e.msgs; out.surface = s.msgs; out.colored = col.msgs;
    };
  char name[] = "lidar_feature_extraction";
  char * argv[] = {name, nullptr};
  CHECK_EQ(app_main(1, argv), 0);
  return out;
}
std::vector<Row> xyz(const PointCloud2 & m)
{
  pcl::PointCloud<pcl::PointXYZ> cl;
  pcl::fromROSMsg(m, cl);
  std::vector<Row> r;
  for (const auto & p : cl) {r.push_back({p.x, p.y, p.z});}
  std::sort(r.begin(), r.end());
  return r;
}
std::vector<Row> xyzrgb(const PointCloud2 & m)
{
  pcl::PointCloud<pcl::PointXYZRGB> cl;
  pcl::fromROSMsg(m, cl);
  std::vector<Row> r;
  for (const auto & p : cl) {r.push_back({p.x, p.y, p.z, static_cast<float>(p.r), static_cast<float>(p.g), static_cast<float>(p.b)});}
  std::sort(r.begin(), r.end());
  return r;
}
void compare(const char * what, const std::vector<Row> & got, std::vector<Row> want)
{
  std::sort(want.begin(), want.end());
  if (got == want) {return;}
  std::vector<Row> missing, extra;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
  std::ostringstream s;
  for (const auto & r : missing) {s << " missing(" << r[0] << " " << r[1] << " " << r[2] << " rgb " << r[3] << " " << r[4] << " " << r[5] << ")"; if (s.str().size() > 400) {break;}}
  for (const auto & r : extra) {s << " unexpected(" << r[0] << " " << r[1] << " " << r[2] << " rgb " << r[3] << " " << r[4] << " " << r[5] << ")"; if (s.str().size() > 800) {break;}}
  CHECK(false, << what << ": " << got.size() << " points, expected " << want.size() << s.str());
}
void header(const PointCloud2 & m, const PointCloud2 & in)
{
  CHECK(m.header.stamp.sec == in.header.stamp.sec && m.header.stamp.nanosec == in.header.stamp.nanosec, << "stamp");
  CHECK_EQ(m.header.frame_id, std::string("lidar_feature_base_link"));
}
}  // namespace

PROP(published_clouds_equal_the_reference, 3000)
{
  const Params p = params(c);
  std::vector<Scan> scans;
  std::vector<PointCloud2> msgs;
  const int n = static_cast<int>(c.range(1, 3));
  for (int i = 0; i < n; i++) {scans.push_back(scan(c, p, 10 + i)); msgs.push_back(scans.back().msg);}
  const Outputs out = process(msgs);
  std::size_t edges = 0, surfaces = 0;
  for (int i = 0; i < n; i++) {
    header(out.edge[i], msgs[i]);
    header(out.surface[i], msgs[i]);
    header(out.colored[i], msgs[i]);
    compare("edge cloud", xyz(out.edge[i]), scans[i].want.edge);
    compare("surface cloud", xyz(out.surface[i]), scans[i].want.surface);
    compare("coloured cloud", xyzrgb(out.colored[i]), scans[i].want.colored);
    edges += scans[i].want.edge.size();
    surfaces += scans[i].want.surface.size();
    c.label("short line", scans[i].used < scans[i].lines);
    c.label("empty scan", scans[i].lines == 0);
  }
  CHECK_EQ(ros_stub::state().shutdowns, 1);   // only the one at the end of main
  c.note() << n << " scans, " << edges << " edges, " << surfaces << " surfaces, padding " << p.padding << ", blocks " << p.blocks;
  c.nontrivial(edges > 0 && surfaces > 0);
  c.label("several scans", n > 1);
}

PROP(result_is_independent_of_earlier_scans, 700)
{
  const Params p = params(c);
  std::vector<PointCloud2> msgs;
  const int n = static_cast<int>(c.range(2, 4));
  for (int i = 0; i < n; i++) {msgs.push_back(scan(c, p, 10 + i).msg);}
  const Outputs all = process(msgs), last = process({msgs.back()});
  CHECK(xyz(all.edge.back()) == xyz(last.edge.back()), << "edges depend on earlier scans");
  CHECK(xyz(all.surface.back()) == xyz(last.surface.back()), << "surfaces depend on earlier scans");
  CHECK(xyzrgb(all.colored.back()) == xyzrgb(last.colored.back()), << "colours depend on earlier scans");
  // and of the order of the points in the message
  c.nontrivial(!xyz(last.edge.back()).empty());
}

PROP(scans_of_full_size, 32)
{
  const Params p = params(c);
  const int lines = c.pick({8, 16, 32, 64, 128});
  pbt::Case b = c.bulk();
  const Scan s = scan(b, p, 10, lines);
  const Outputs out = process({s.msg});
  header(out.edge[0], s.msg);
  compare("edge cloud", xyz(out.edge[0]), s.want.edge);
  compare("surface cloud", xyz(out.surface[0]), s.want.surface);
  compare("coloured cloud", xyzrgb(out.colored[0]), s.want.colored);
  c.note() << lines << " lines, " << s.msg.width << " points, " << s.want.edge.size() << " edges, " << s.want.surface.size() << " surfaces";
  c.nontrivial(s.used > 1 && !s.want.edge.empty() && !s.want.surface.empty());
  c.label("more than 32767 points", s.msg.width > 32767);
  c.label("more than 65535 points", s.msg.width > 65535);
}

// scans the node cannot use
PROP(unusable_scans_shut_the_node_down, 400)
{
  const Params p = params(c);
  Scan s = scan(c, p, 10);
  const int kind = static_cast<int>(c.below(3));   // 0: declared with NaN points, 1: with real ones, 2: no ring
  int bad = 0;
  if (kind < 2) {
    s.msg.is_dense = false;
  } else {
    const auto name = c.pick({std::string("Ring"), std::string("rings"), std::string("line"), std::string("r")});
    for (auto & f : s.msg.fields) {if (f.name == "ring") {f.name = name;}}
  }
  if (kind == 1) {
    // returns in front of the sensor, to its left, lost ones (zeros) and NaN ones in any proportion
    const int w[] = {c.pick({0, 1, 5}), c.pick({0, 1, 5}), c.pick({0, 1, 5, 20}), c.pick({1, 2, 5, 20})};
    std::array<std::size_t, 3> o{};
    for (const auto & f : s.msg.fields) {if (f.name == "x" || f.name == "y" || f.name == "z") {o[f.name[0] - 'x'] = f.offset;}}
    const int rest = c.pick({0, 1, 10});
    for (std::size_t i = 0; i < s.msg.width; i++) {
      std::array<float, 3> v{};
      std::uint8_t * d = s.msg.data.data() + i * s.msg.point_step;
      for (int k = 0; k < 3; k++) {std::memcpy(&v[k], d + o[k], 4);}
      int what = static_cast<int>(c.below(static_cast<std::uint64_t>(w[0] + w[1] + w[2] + w[3] + rest)));
      if (what < w[0]) {
        v = {std::abs(v[0]), 0.f, v[2]};
      } else if ((what -= w[0]) < w[1]) {
        v[1] = std::abs(v[1]);
      } else if ((what -= w[1]) < w[2]) {
        v = {0.f, 0.f, 0.f};
      } else if ((what -= w[2]) < w[3]) {
        const float nan = std::numeric_limits<float>::quiet_NaN();
        const int part = static_cast<int>(c.below(4));
        for (int k = 0; k < 3; k++) {if (part == 3 || part == k) {v[k] = nan;}}
        bad++;
      }
      for (int k = 0; k < 3; k++) {std::memcpy(d + o[k], &v[k], 4);}
    }
  }
  const auto keep = ros_stub::state().params;
  ros_stub::reset();
  ros_stub::state().params = keep;
  int before = -1, after = -1;
  std::size_t sent = 0;
  ros_stub::state().spin_hook = [&] {
      ros_stub::Recorder<PointCloud2> edge("scan_edge"), surface("scan_surface"), colored("colored_scan");
      before = ros_stub::state().shutdowns;
      ros_stub::send("points_raw", s.msg);
      after = ros_stub::state().shutdowns;
      sent = edge.msgs.size() + surface.msgs.size() + colored.msgs.size();
    };
  char name[] = "lidar_feature_extraction";
  char * argv[] = {name, nullptr};
  CHECK_EQ(app_main(1, argv), 0);
  CHECK_EQ(before, 0);
  CHECK(after >= 1, << (kind < 2 ? "a scan with NaN points" : "a scan without a ring channel") << " was accepted");
  CHECK_EQ(sent, std::size_t(0));
  c.nontrivial(s.lines > 0);
  c.label("with NaN points", bad > 0);
}

// In-process stand-in for the parts of ROS 2 that /repo uses.  Publishing is a synchronous
// call of the matching subscriptions; time, parameters, timers and transforms are driven by
// the harness through namespace ros_stub.  Semantics follow rclcpp/tf2/message_filters.
#pragma once

#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Geometry>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>

// ---------------------------------------------------------------------------- messages
#define ROS_STUB_MSG(T) \
  using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>; using ConstPtr = ConstSharedPtr; using Ptr = SharedPtr;

namespace builtin_interfaces::msg
{
struct Time
{
  ROS_STUB_MSG(Time)
  std::int32_t sec = 0;
  std::uint32_t nanosec = 0;
  bool operator==(const Time & o) const {return sec == o.sec && nanosec == o.nanosec;}
  bool operator!=(const Time & o) const {return !(*this == o);}
};
struct Duration
{
  ROS_STUB_MSG(Duration)
  std::int32_t sec = 0;
  std::uint32_t nanosec = 0;
  bool operator==(const Duration & o) const {return sec == o.sec && nanosec == o.nanosec;}
};
}  // namespace builtin_interfaces::msg

namespace std_msgs::msg
{
struct Header
{
  ROS_STUB_MSG(Header)
  builtin_interfaces::msg::Time stamp;
  std::string frame_id;
  bool operator==(const Header & o) const {return stamp == o.stamp && frame_id == o.frame_id;}
  bool operator!=(const Header & o) const {return !(*this == o);}
};
struct ColorRGBA
{
  float r = 0, g = 0, b = 0, a = 0;
};
struct String {ROS_STUB_MSG(String) std::string data;};
}  // namespace std_msgs::msg

namespace geometry_msgs::msg
{
#define EQ(T, ...) bool operator==(const T & o) const {return __VA_ARGS__;} \
  bool operator!=(const T & o) const {return !(*this == o);}
struct Point {ROS_STUB_MSG(Point) double x = 0, y = 0, z = 0; EQ(Point, x == o.x && y == o.y && z == o.z)};
struct Point32 {ROS_STUB_MSG(Point32) float x = 0, y = 0, z = 0;};
struct Vector3 {ROS_STUB_MSG(Vector3) double x = 0, y = 0, z = 0; EQ(Vector3, x == o.x && y == o.y && z == o.z)};
struct Quaternion
{
  ROS_STUB_MSG(Quaternion)
  double x = 0, y = 0, z = 0, w = 1;
  EQ(Quaternion, x == o.x && y == o.y && z == o.z && w == o.w)
};
struct Pose {ROS_STUB_MSG(Pose) Point position; Quaternion orientation; EQ(Pose, position == o.position && orientation == o.orientation)};
struct PoseStamped {ROS_STUB_MSG(PoseStamped) std_msgs::msg::Header header; Pose pose; EQ(PoseStamped, header == o.header && pose == o.pose)};
struct PoseArray {ROS_STUB_MSG(PoseArray) std_msgs::msg::Header header; std::vector<Pose> poses;};
struct PoseWithCovariance
{
  ROS_STUB_MSG(PoseWithCovariance)
  Pose pose; std::array<double, 36> covariance{};
  EQ(PoseWithCovariance, pose == o.pose && covariance == o.covariance)
};
struct PoseWithCovarianceStamped
{
  ROS_STUB_MSG(PoseWithCovarianceStamped)
  std_msgs::msg::Header header; PoseWithCovariance pose;
  EQ(PoseWithCovarianceStamped, header == o.header && pose == o.pose)
};
struct Twist {ROS_STUB_MSG(Twist) Vector3 linear, angular; EQ(Twist, linear == o.linear && angular == o.angular)};
struct TwistStamped {ROS_STUB_MSG(TwistStamped) std_msgs::msg::Header header; Twist twist;};
struct TwistWithCovariance {ROS_STUB_MSG(TwistWithCovariance) Twist twist; std::array<double, 36> covariance{};};
struct TwistWithCovarianceStamped
{
  ROS_STUB_MSG(TwistWithCovarianceStamped)
  std_msgs::msg::Header header; TwistWithCovariance twist;
};
struct Transform {ROS_STUB_MSG(Transform) Vector3 translation; Quaternion rotation; EQ(Transform, translation == o.translation && rotation == o.rotation)};
struct TransformStamped
{
  ROS_STUB_MSG(TransformStamped)
  std_msgs::msg::Header header; std::string child_frame_id; Transform transform;
};
#undef EQ
}  // namespace geometry_msgs::msg

namespace nav_msgs::msg
{
struct Odometry
{
  ROS_STUB_MSG(Odometry)
  std_msgs::msg::Header header; std::string child_frame_id;
  geometry_msgs::msg::PoseWithCovariance pose; geometry_msgs::msg::TwistWithCovariance twist;
};
struct Path {ROS_STUB_MSG(Path) std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses;};
}  // namespace nav_msgs::msg

namespace sensor_msgs::msg
{
struct PointField
{
  ROS_STUB_MSG(PointField)
  static constexpr std::uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name; std::uint32_t offset = 0; std::uint8_t datatype = 0; std::uint32_t count = 0;
};
struct PointCloud2
{
  ROS_STUB_MSG(PointCloud2)
  std_msgs::msg::Header header;
  std::uint32_t height = 0, width = 0;
  std::vector<PointField> fields;
  bool is_bigendian = false;
  std::uint32_t point_step = 0, row_step = 0;
  std::vector<std::uint8_t> data;
  bool is_dense = false;
};
}  // namespace sensor_msgs::msg

namespace visualization_msgs::msg
{
struct Marker
{
  ROS_STUB_MSG(Marker)
  static constexpr int ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5,
    CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8, TEXT_VIEW_FACING = 9, MESH_RESOURCE = 10, TRIANGLE_LIST = 11;
  static constexpr int ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;
  std_msgs::msg::Header header; std::string ns; std::int32_t id = 0, type = 0, action = 0;
  geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color;
  builtin_interfaces::msg::Duration lifetime; bool frame_locked = false;
  std::vector<geometry_msgs::msg::Point> points; std::vector<std_msgs::msg::ColorRGBA> colors; std::string text;
};
}  // namespace visualization_msgs::msg

// ---------------------------------------------------------------------------- harness side
enum rcl_clock_type_t {RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME = 1, RCL_SYSTEM_TIME = 2, RCL_STEADY_TIME = 3};

namespace ros_stub
{
using Param = std::variant<bool, std::int64_t, double, std::string, std::vector<double>, std::vector<std::string>>;
struct State
{
  std::int64_t now_ns = 1000000000;
  bool ok = true;
  int shutdowns = 0;
  std::int64_t slept_ns = 0;
  std::map<std::string, Param> params;          // overrides by name
  int format_errors = 0;                        // log calls whose format needs more arguments than given
  std::string bad_format;
  int warnings = 0, errors = 0;
  std::string last_message;
  bool verbose = false;
  std::function<void()> spin_hook;
  std::map<std::pair<std::string, std::string>, geometry_msgs::msg::TransformStamped> tf;   // (parent, child)
  std::vector<geometry_msgs::msg::TransformStamped> sent_tf, sent_static_tf;
  struct TimerEntry {const void * owner; std::function<void()> cb; std::int64_t period_ns;};
  std::list<std::weak_ptr<TimerEntry>> timers;
};
inline State & state() {static State s; return s;}
inline void reset() {state() = State();}

inline int specifiers(const char * f)
{
  int n = 0;
  for (; *f; f++) {
    if (*f != '%') {continue;}
    f++;
    if (*f == '%') {continue;}
    n++;
    while (*f && std::string("diouxXeEfFgGaAcspn").find(*f) == std::string::npos) {if (*f == '*') {n++;} f++;}
    if (!*f) {break;}
  }
  return n;
}
template<class ... A>
void log(int level, const char * format, const A & ... args)
{
  State & s = state();
  if (level == 1) {s.warnings++;} else if (level >= 2) {s.errors++;}
  if (specifiers(format) > static_cast<int>(sizeof...(A))) {
    s.format_errors++;
    s.bad_format = format;
    return;
  }
  char buffer[2048];
  #pragma GCC diagnostic push
  #pragma GCC diagnostic ignored "-Wformat-security"
  std::snprintf(buffer, sizeof(buffer), format, args ...);
  #pragma GCC diagnostic pop
  if (level >= 1) {s.last_message = buffer;}
  if (s.verbose) {std::fprintf(stderr, "[log %d] %s\n", level, buffer);}
}
template<class ... A>
void log(int level, const std::string & format, const A & ... args) {log(level, format.c_str(), args ...);}
}  // namespace ros_stub

#define RCLCPP_DEBUG(logger, ...) do {(void)(logger); ros_stub::log(0, __VA_ARGS__);} while (0)
#define RCLCPP_INFO(logger, ...) do {(void)(logger); ros_stub::log(0, __VA_ARGS__);} while (0)
#define RCLCPP_WARN(logger, ...) do {(void)(logger); ros_stub::log(1, __VA_ARGS__);} while (0)
#define RCLCPP_ERROR(logger, ...) do {(void)(logger); ros_stub::log(2, __VA_ARGS__);} while (0)
#define RCLCPP_FATAL(logger, ...) do {(void)(logger); ros_stub::log(3, __VA_ARGS__);} while (0)
#define RCLCPP_STUB_STREAM(l, logger, s) do {(void)(logger); std::ostringstream ros_os; ros_os << s; ros_stub::log(l, "%s", ros_os.str().c_str());} while (0)
#define RCLCPP_DEBUG_STREAM(logger, s) RCLCPP_STUB_STREAM(0, logger, s)
#define RCLCPP_INFO_STREAM(logger, s) RCLCPP_STUB_STREAM(0, logger, s)
#define RCLCPP_WARN_STREAM(logger, s) RCLCPP_STUB_STREAM(1, logger, s)
#define RCLCPP_ERROR_STREAM(logger, s) RCLCPP_STUB_STREAM(2, logger, s)
#define RCLCPP_STUB_THROTTLE(l, logger, clock, duration, ...) \
  do {(void)(logger); (void)(clock); (void)(duration); ros_stub::log(l, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, duration, ...) RCLCPP_STUB_THROTTLE(0, logger, clock, duration, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(logger, clock, duration, ...) RCLCPP_STUB_THROTTLE(0, logger, clock, duration, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, duration, ...) RCLCPP_STUB_THROTTLE(1, logger, clock, duration, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clock, duration, ...) RCLCPP_STUB_THROTTLE(2, logger, clock, duration, __VA_ARGS__)
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR

// ---------------------------------------------------------------------------- rclcpp
namespace rclcpp
{
class Duration
{
public:
  Duration() = default;
  Duration(std::int32_t s, std::uint32_t ns) : ns_(static_cast<std::int64_t>(s) * 1000000000 + ns) {}
  explicit Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  template<class R, class P> Duration(const std::chrono::duration<R, P> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}  // NOLINT
  Duration(const builtin_interfaces::msg::Duration & d) : Duration(d.sec, d.nanosec) {}  // NOLINT
  static Duration from_seconds(double s)
  {
    return from_nanoseconds(static_cast<std::int64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<double>(s)).count()));
  }
  static Duration from_nanoseconds(std::int64_t ns) {Duration d; d.ns_ = ns; return d;}
  std::int64_t nanoseconds() const {return ns_;}
  double seconds() const {return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count();}
  bool operator<(const Duration & o) const {return ns_ < o.ns_;}
  bool operator>(const Duration & o) const {return ns_ > o.ns_;}
  bool operator<=(const Duration & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Duration & o) const {return ns_ >= o.ns_;}
  bool operator==(const Duration & o) const {return ns_ == o.ns_;}
  Duration operator+(const Duration & o) const {return from_nanoseconds(ns_ + o.ns_);}
  Duration operator-(const Duration & o) const {return from_nanoseconds(ns_ - o.ns_);}

private:
  std::int64_t ns_ = 0;
};

class Time
{
public:
  Time(std::int32_t s, std::uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME)
  : ns_(static_cast<std::int64_t>(s) * 1000000000 + ns), t_(t)
  {
    if (s < 0) {throw std::runtime_error("cannot store a negative time point in rclcpp::Time");}
  }
  explicit Time(std::int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), t_(t) {}
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME)  // NOLINT
  : ns_(static_cast<std::int64_t>(m.sec) * 1000000000 + m.nanosec), t_(t)
  {
    if (m.sec < 0) {throw std::runtime_error("cannot store a negative time point in rclcpp::Time");}
  }
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    std::int64_t s = ns_ / 1000000000, r = ns_ % 1000000000;
    if (r < 0) {s -= 1; r += 1000000000;}
    m.sec = static_cast<std::int32_t>(s);
    m.nanosec = static_cast<std::uint32_t>(r);
    return m;
  }
  std::int64_t nanoseconds() const {return ns_;}
  double seconds() const {return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count();}
  rcl_clock_type_t get_clock_type() const {return t_;}
  Duration operator-(const Time & o) const {same(o); return Duration::from_nanoseconds(ns_ - o.ns_);}
  Time operator+(const Duration & d) const {return Time(ns_ + d.nanoseconds(), t_);}
  Time operator-(const Duration & d) const {return Time(ns_ - d.nanoseconds(), t_);}
  bool operator<(const Time & o) const {same(o); return ns_ < o.ns_;}
  bool operator>(const Time & o) const {same(o); return ns_ > o.ns_;}
  bool operator<=(const Time & o) const {same(o); return ns_ <= o.ns_;}
  bool operator>=(const Time & o) const {same(o); return ns_ >= o.ns_;}
  bool operator==(const Time & o) const {same(o); return ns_ == o.ns_;}
  bool operator!=(const Time & o) const {same(o); return ns_ != o.ns_;}

private:
  void same(const Time & o) const
  {
    if (t_ != o.t_) {throw std::runtime_error("can't compare or subtract times with different time sources");}
  }
  std::int64_t ns_;
  rcl_clock_type_t t_;
};

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>; using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const {return Time(ros_stub::state().now_ns, t_);}
  rcl_clock_type_t get_clock_type() const {return t_;}

private:
  rcl_clock_type_t t_;
};

class Logger {public: std::string name; const char * get_name() const {return name.c_str();} Logger get_child(const std::string & s) const {return Logger{name + "." + s};}};
inline Logger get_logger(const std::string & n) {return Logger{n};}

struct rmw_like_qos
{
  bool reliable = true, transient_local = false, keep_all = false;
  std::size_t depth = 10;
};
struct KeepLast {std::size_t depth; explicit KeepLast(std::size_t d) : depth(d) {}};
struct KeepAll {};
class QoS
{
public:
  QoS(std::size_t depth) {p_.depth = depth;}  // NOLINT
  QoS(const KeepLast & k) {p_.depth = k.depth;}  // NOLINT
  QoS(const KeepAll &) {p_.keep_all = true;}  // NOLINT
  QoS & reliable() {p_.reliable = true; return *this;}
  QoS & best_effort() {p_.reliable = false; return *this;}
  QoS & durability_volatile() {p_.transient_local = false; return *this;}
  QoS & transient_local() {p_.transient_local = true; return *this;}
  QoS & keep_all() {p_.keep_all = true; return *this;}
  QoS & keep_last(std::size_t d) {p_.keep_all = false; p_.depth = d; return *this;}
  const rmw_like_qos & get_rmw_qos_profile() const {return p_;}

protected:
  rmw_like_qos p_;
};
class SensorDataQoS : public QoS {public: SensorDataQoS() : QoS(5) {p_.reliable = false;}};
class SystemDefaultsQoS : public QoS {public: SystemDefaultsQoS() : QoS(1) {}};

enum class CallbackGroupType {MutuallyExclusive, Reentrant};
class CallbackGroup {public: using SharedPtr = std::shared_ptr<CallbackGroup>; CallbackGroupType type;};
struct SubscriptionOptions {CallbackGroup::SharedPtr callback_group;};
struct PublisherOptions {CallbackGroup::SharedPtr callback_group;};

class Parameter
{
public:
  std::string name; ros_stub::Param value;
  Parameter() = default;
  Parameter(const std::string & n, int v) : name(n), value(static_cast<std::int64_t>(v)) {}
  Parameter(const std::string & n, std::int64_t v) : name(n), value(v) {}
  Parameter(const std::string & n, double v) : name(n), value(v) {}
  Parameter(const std::string & n, bool v) : name(n), value(v) {}
  Parameter(const std::string & n, const std::string & v) : name(n), value(v) {}
  Parameter(const std::string & n, const char * v) : name(n), value(std::string(v)) {}
  double as_double() const {return std::get<double>(value);}
  std::int64_t as_int() const {return std::get<std::int64_t>(value);}
  std::string as_string() const {return std::get<std::string>(value);}
  bool as_bool() const {return std::get<bool>(value);}
};
class NodeOptions
{
public:
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) {p_ = p; return *this;}
  NodeOptions & append_parameter_override(const std::string & n, const Parameter & v) {p_.push_back(v); p_.back().name = n; return *this;}
  const std::vector<Parameter> & parameter_overrides() const {return p_;}
  NodeOptions & use_intra_process_comms(bool) {return *this;}
  NodeOptions & automatically_declare_parameters_from_overrides(bool) {return *this;}

private:
  std::vector<Parameter> p_;
};

namespace exceptions
{
struct ParameterAlreadyDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};
struct InvalidParameterTypeException : std::runtime_error {using std::runtime_error::runtime_error;};
}
}  // namespace rclcpp

namespace ros_stub
{
inline std::string topic_name(const std::string & t) {return t.empty() || t[0] != '/' ? "/" + t : t;}
struct SubscriptionImpl
{
  std::type_index type; rclcpp::rmw_like_qos qos;
  std::function<void(const void *)> deliver;
};
struct PublisherImpl
{
  std::type_index type; rclcpp::rmw_like_qos qos;
  std::deque<std::shared_ptr<const void>> stored;
};
struct Topic {std::list<std::weak_ptr<SubscriptionImpl>> subs; std::list<std::weak_ptr<PublisherImpl>> pubs;};
inline std::vector<std::pair<std::string, std::string>> & declared_log()   // (name, type) of every declared parameter
{
  static std::vector<std::pair<std::string, std::string>> d;
  return d;
}
struct Endpoint {bool publisher; std::string topic; std::string type; rclcpp::rmw_like_qos qos;};   // as named in the code
inline std::vector<Endpoint> & endpoint_log() {static std::vector<Endpoint> e; return e;}
inline std::map<std::string, Topic> & topics() {static std::map<std::string, Topic> t; return t;}
inline bool compatible(const rclcpp::rmw_like_qos & p, const rclcpp::rmw_like_qos & s)
{
  return (p.reliable || !s.reliable) && (p.transient_local || !s.transient_local);
}
inline void subscribe(const std::string & topic, const std::shared_ptr<SubscriptionImpl> & s)
{
  Topic & t = topics()[topic_name(topic)];
  t.subs.push_back(s);
  if (!s->qos.transient_local) {return;}
  for (auto & w : t.pubs) {
    auto p = w.lock();
    if (!p || p->type != s->type || !compatible(p->qos, s->qos)) {continue;}
    const std::size_t n = p->stored.size(), k = s->qos.keep_all ? n : std::min(n, s->qos.depth);
    for (std::size_t i = n - k; i < n; i++) {s->deliver(p->stored[i].get());}
  }
}
template<class M>
void deliver(const std::string & topic, const rclcpp::rmw_like_qos & qos, const M & m)
{
  std::vector<std::shared_ptr<SubscriptionImpl>> live;
  auto & subs = topics()[topic_name(topic)].subs;
  for (auto it = subs.begin(); it != subs.end(); ) {
    if (auto s = it->lock()) {live.push_back(s); ++it;} else {it = subs.erase(it);}
  }
  for (auto & s : live) {
    if (s->type != std::type_index(typeid(M)) || !compatible(qos, s->qos)) {continue;}
    s->deliver(&m);
  }
}
// what the harness calls to inject a message (as a reliable, volatile publisher)
template<class M> void send(const std::string & topic, const M & m)
{
  deliver(topic, rclcpp::rmw_like_qos{}, m);
}
template<class M, class F>
std::function<void(const void *)> make_deliver(F f)
{
  return [f](const void * p) mutable {
      const M & m = *static_cast<const M *>(p);
      if constexpr (std::is_invocable_v<F &, std::shared_ptr<M>>) {
        f(std::make_shared<M>(m));
      } else if constexpr (std::is_invocable_v<F &, std::unique_ptr<M>>) {
        f(std::make_unique<M>(m));
      } else {
        f(m);
      }
    };
}
// what the harness uses to listen
template<class M>
class Recorder
{
public:
  explicit Recorder(const std::string & topic, bool latched = false)
  {
    rclcpp::rmw_like_qos q; q.reliable = false; q.transient_local = latched; q.keep_all = true;
    impl_ = std::make_shared<SubscriptionImpl>(SubscriptionImpl{std::type_index(typeid(M)), q,
        [this](const void * p) {msgs.push_back(*static_cast<const M *>(p));}});
    subscribe(topic, impl_);
  }
  Recorder(const Recorder &) = delete;
  std::vector<M> msgs;

private:
  std::shared_ptr<SubscriptionImpl> impl_;
};
}  // namespace ros_stub

namespace rclcpp
{
template<class M>
class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>; using ConstSharedPtr = std::shared_ptr<const Publisher<M>>;
  Publisher(const std::string & t, const rmw_like_qos & q)
  : topic_(t), impl_(std::make_shared<ros_stub::PublisherImpl>(ros_stub::PublisherImpl{std::type_index(typeid(M)), q, {}}))
  {
    ros_stub::topics()[ros_stub::topic_name(t)].pubs.push_back(impl_);
  }
  void publish(const M & m) const
  {
    if (!ros_stub::state().ok) {return;}   // after shutdown a publisher sends nothing, silently
    if (impl_->qos.transient_local) {
      impl_->stored.push_back(std::make_shared<const M>(m));
      if (!impl_->qos.keep_all && impl_->stored.size() > impl_->qos.depth) {impl_->stored.pop_front();}
    }
    ros_stub::deliver(topic_, impl_->qos, m);
  }
  void publish(std::unique_ptr<M> m) const {publish(static_cast<const M &>(*m));}
  std::size_t get_subscription_count() const {return ros_stub::topics()[ros_stub::topic_name(topic_)].subs.size();}
  const char * get_topic_name() const {return topic_.c_str();}

private:
  std::string topic_;
  std::shared_ptr<ros_stub::PublisherImpl> impl_;
};
template<class M>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>; using ConstSharedPtr = std::shared_ptr<const Subscription<M>>;
  std::shared_ptr<ros_stub::SubscriptionImpl> impl;
};
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  std::shared_ptr<ros_stub::State::TimerEntry> entry;
  void cancel() {entry.reset();}
  void reset() {}
};

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions()) : name_(name)
  {
    for (const auto & p : o.parameter_overrides()) {overrides_[p.name] = p.value;}
  }
  Node(const std::string & name, const std::string &, const NodeOptions & o = NodeOptions()) : Node(name, o) {}
  virtual ~Node() = default;
  Node(const Node &) = delete;

  template<class T>
  auto declare_parameter(const std::string & name, const T & def)
  {
    if (declared_.count(name)) {throw exceptions::ParameterAlreadyDeclaredException(name);}
    declared_.insert(name);
    ros_stub::declared_log().emplace_back(
      name, std::is_convertible_v<T, std::string> ? "string" : std::is_same_v<T, bool> ? "bool" :
      std::is_integral_v<T> ? "int" : std::is_floating_point_v<T> ? "double" : "list");
    const ros_stub::Param * p = nullptr;
    if (overrides_.count(name)) {p = &overrides_[name];} else if (ros_stub::state().params.count(name)) {p = &ros_stub::state().params[name];}
    if constexpr (std::is_convertible_v<T, std::string>) {
      return p ? get_or_throw<std::string>(name, *p) : std::string(def);
    } else if constexpr (std::is_same_v<T, bool>) {
      return p ? get_or_throw<bool>(name, *p) : def;
    } else if constexpr (std::is_integral_v<T>) {
      return p ? static_cast<T>(get_or_throw<std::int64_t>(name, *p)) : def;
    } else if constexpr (std::is_floating_point_v<T>) {
      return p ? static_cast<T>(get_or_throw<double>(name, *p)) : def;
    } else {
      return p ? get_or_throw<T>(name, *p) : def;
    }
  }
  template<class T>
  T declare_parameter(const std::string & name) {return declare_parameter(name, T());}
  bool has_parameter(const std::string & n) const {return declared_.count(n) > 0;}

  template<class M>
  typename Publisher<M>::SharedPtr create_publisher(const std::string & t, const QoS & q, const PublisherOptions & = PublisherOptions())
  {
    ros_stub::endpoint_log().push_back({true, t, typeid(M).name(), q.get_rmw_qos_profile()});
    return std::make_shared<Publisher<M>>(t, q.get_rmw_qos_profile());
  }
  template<class M, class F>
  typename Subscription<M>::SharedPtr create_subscription(
    const std::string & t, const QoS & q, F f, const SubscriptionOptions & = SubscriptionOptions())
  {
    ros_stub::endpoint_log().push_back({false, t, typeid(M).name(), q.get_rmw_qos_profile()});
    auto s = std::make_shared<Subscription<M>>();
    s->impl = std::make_shared<ros_stub::SubscriptionImpl>(ros_stub::SubscriptionImpl{
        std::type_index(typeid(M)), q.get_rmw_qos_profile(), ros_stub::make_deliver<M, F>(f)});
    ros_stub::subscribe(t, s->impl);
    return s;
  }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true)
  {
    auto g = std::make_shared<CallbackGroup>(); g->type = t; groups_.push_back(g); return g;
  }
  template<class F>
  TimerBase::SharedPtr add_timer(std::int64_t period, F f)
  {
    auto t = std::make_shared<TimerBase>();
    t->entry = std::make_shared<ros_stub::State::TimerEntry>(ros_stub::State::TimerEntry{this, f, period});
    ros_stub::state().timers.push_back(t->entry);
    return t;
  }
  template<class R, class P, class F>
  TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> d, F f)
  {
    return add_timer(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), f);
  }
  Clock::SharedPtr get_clock() {return clock_;}
  Clock::ConstSharedPtr get_clock() const {return clock_;}
  Time now() const {return clock_->now();}
  Logger get_logger() const {return Logger{name_};}
  const char * get_name() const {return name_.c_str();}

private:
  template<class T>
  static T get_or_throw(const std::string & name, const ros_stub::Param & p)
  {
    if (!std::holds_alternative<T>(p)) {throw exceptions::InvalidParameterTypeException(name);}
    return std::get<T>(p);
  }
  std::string name_;
  std::map<std::string, ros_stub::Param> overrides_;
  std::set<std::string> declared_;
  std::vector<CallbackGroup::SharedPtr> groups_;
  Clock::SharedPtr clock_ = std::make_shared<Clock>(RCL_ROS_TIME);
};

inline Node * node_ptr(Node * n) {return n;}
inline Node * node_ptr(Node & n) {return &n;}
template<class N> Node * node_ptr(const std::shared_ptr<N> & n) {return n.get();}

template<class N, class F>
TimerBase::SharedPtr create_timer(N && n, const Clock::SharedPtr &, const Duration & d, F f)
{
  return node_ptr(n)->add_timer(d.nanoseconds(), f);
}
inline void init(int, char const * const *) {ros_stub::state().ok = true;}
inline void init(int, char * *) {ros_stub::state().ok = true;}
inline bool shutdown() {ros_stub::state().ok = false; ros_stub::state().shutdowns++; return true;}
inline bool ok() {return ros_stub::state().ok;}
template<class N> void spin(const std::shared_ptr<N> & n)
{
  if (!n) {throw std::runtime_error("null node");}
  if (ros_stub::state().spin_hook) {ros_stub::state().spin_hook();}
}
template<class N> void spin_some(const std::shared_ptr<N> &) {}
template<class R, class P> bool sleep_for(const std::chrono::duration<R, P> & d)
{
  ros_stub::state().slept_ns += std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
  return true;
}
class Rate {public: explicit Rate(double) {} bool sleep() {return true;}};
class WallRate : public Rate {public: using Rate::Rate;};
struct ExecutorOptions {};
namespace executors
{
class SingleThreadedExecutor
{
public:
  SingleThreadedExecutor() = default;
  template<class ... A> explicit SingleThreadedExecutor(const ExecutorOptions &, A && ...) {}
  template<class N> void add_node(const std::shared_ptr<N> & n) {nodes_.push_back(n);}
  void spin() {if (ros_stub::state().spin_hook) {ros_stub::state().spin_hook();}}
  void spin_some() {}

private:
  std::vector<std::shared_ptr<void>> nodes_;
};
class MultiThreadedExecutor : public SingleThreadedExecutor
{
public:
  using SingleThreadedExecutor::SingleThreadedExecutor;
};
}  // namespace executors
}  // namespace rclcpp

namespace ros_stub
{
inline void fire_timers()
{
  std::vector<std::shared_ptr<State::TimerEntry>> live;
  for (auto & w : state().timers) {if (auto e = w.lock()) {live.push_back(e);}}
  for (auto & e : live) {e->cb();}
}
inline std::size_t timer_count()
{
  std::size_t n = 0;
  for (auto & w : state().timers) {n += !w.expired();}
  return n;
}
}  // namespace ros_stub

#define RCLCPP_COMPONENTS_REGISTER_NODE(NodeClass) \
  std::shared_ptr<rclcpp::Node> ros_stub_make_node_ ## NodeClass(const rclcpp::NodeOptions & o) {return std::make_shared<NodeClass>(o);}

// ---------------------------------------------------------------------------- message_filters
namespace message_filters
{
template<class M>
class Subscriber
{
public:
  Subscriber() = default;
  template<class N> Subscriber(N && n, const std::string & topic, const rclcpp::rmw_like_qos & q = rclcpp::rmw_like_qos()) {subscribe(n, topic, q);}
  template<class N> void subscribe(N &&, const std::string & topic, const rclcpp::rmw_like_qos & q = rclcpp::rmw_like_qos())
  {
    ros_stub::endpoint_log().push_back({false, topic, typeid(M).name(), q});
    impl_ = std::make_shared<ros_stub::SubscriptionImpl>(ros_stub::SubscriptionImpl{
        std::type_index(typeid(M)), q, [this](const void * p) {
          auto m = std::make_shared<const M>(*static_cast<const M *>(p));
          for (auto & f : callbacks) {f(m);}
        }});
    ros_stub::subscribe(topic, impl_);
  }
  template<class F> void registerCallback(F f) {callbacks.push_back(f);}
  Subscriber(const Subscriber &) = delete;
  std::vector<std::function<void(const std::shared_ptr<const M> &)>> callbacks;

private:
  std::shared_ptr<ros_stub::SubscriptionImpl> impl_;
};
namespace sync_policies
{
template<class A, class B>
struct ExactTime
{
  using First = A; using Second = B;
  std::uint32_t queue_size;
  explicit ExactTime(std::uint32_t n) : queue_size(n) {}
};
}  // namespace sync_policies
template<class Policy>
class Synchronizer
{
  using A = typename Policy::First; using B = typename Policy::Second;

public:
  Synchronizer(const Policy & p, Subscriber<A> & a, Subscriber<B> & b) : policy_(p)
  {
    a.callbacks.push_back([this](const std::shared_ptr<const A> & m) {auto & t = at(m->header.stamp); t.first = m; check(m->header.stamp);});
    b.callbacks.push_back([this](const std::shared_ptr<const B> & m) {auto & t = at(m->header.stamp); t.second = m; check(m->header.stamp);});
  }
  Synchronizer(const Synchronizer &) = delete;
  template<class F> void registerCallback(F f) {callbacks_.push_back(f);}

private:
  using Tuple = std::pair<std::shared_ptr<const A>, std::shared_ptr<const B>>;
  static std::int64_t ns(const builtin_interfaces::msg::Time & s) {return static_cast<std::int64_t>(s.sec) * 1000000000 + s.nanosec;}
  Tuple & at(const builtin_interfaces::msg::Time & s) {return tuples_[ns(s)];}
  void check(const builtin_interfaces::msg::Time & s)
  {
    const Tuple t = tuples_[ns(s)];
    if (t.first && t.second) {
      for (auto & f : callbacks_) {f(t.first, t.second);}
      tuples_.erase(tuples_.begin(), tuples_.upper_bound(ns(s)));
    }
    while (policy_.queue_size > 0 && tuples_.size() > policy_.queue_size) {tuples_.erase(tuples_.begin());}
  }
  Policy policy_;
  std::map<std::int64_t, Tuple> tuples_;
  std::vector<std::function<void(const std::shared_ptr<const A> &, const std::shared_ptr<const B> &)>> callbacks_;
};
}  // namespace message_filters

// ---------------------------------------------------------------------------- tf2
namespace tf2
{
class Vector3
{
public:
  Vector3() = default;
  Vector3(double x, double y, double z) : v{x, y, z} {}
  double x() const {return v[0];} double y() const {return v[1];} double z() const {return v[2];}
  double getX() const {return v[0];} double getY() const {return v[1];} double getZ() const {return v[2];}

private:
  double v[3] = {0, 0, 0};
};
class Quaternion
{
public:
  Quaternion() = default;
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  double x() const {return x_;} double y() const {return y_;} double z() const {return z_;} double w() const {return w_;}
  double getX() const {return x_;} double getY() const {return y_;} double getZ() const {return z_;} double getW() const {return w_;}
  double length2() const {return x_ * x_ + y_ * y_ + z_ * z_ + w_ * w_;}
  double length() const {return std::sqrt(length2());}
  Quaternion & normalize() {const double n = length(); x_ /= n; y_ /= n; z_ /= n; w_ /= n; return *this;}
  void setRPY(double roll, double pitch, double yaw)
  {
    const double cy = std::cos(yaw / 2), sy = std::sin(yaw / 2), cp = std::cos(pitch / 2), sp = std::sin(pitch / 2),
      cr = std::cos(roll / 2), sr = std::sin(roll / 2);
    x_ = sr * cp * cy - cr * sp * sy; y_ = cr * sp * cy + sr * cp * sy;
    z_ = cr * cp * sy - sr * sp * cy; w_ = cr * cp * cy + sr * sp * sy;
  }

private:
  double x_ = 0, y_ = 0, z_ = 0, w_ = 1;
};
class Matrix3x3
{
public:
  explicit Matrix3x3(const Quaternion & q)
  {
    const double s = 2. / q.length2();
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs,
      xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m[0] = {1 - (yy + zz), xy - wz, xz + wy}; m[1] = {xy + wz, 1 - (xx + zz), yz - wx}; m[2] = {xz - wy, yz + wx, 1 - (xx + yy)};
  }
  void getEulerYPR(double & yaw, double & pitch, double & roll, unsigned = 1) const
  {
    if (std::fabs(m[2][0]) >= 1) {
      yaw = 0;
      const double delta = std::atan2(m[2][1], m[2][2]);
      if (m[2][0] < 0) {pitch = M_PI / 2; roll = delta;} else {pitch = -M_PI / 2; roll = delta;}
      return;
    }
    pitch = -std::asin(m[2][0]);
    roll = std::atan2(m[2][1] / std::cos(pitch), m[2][2] / std::cos(pitch));
    yaw = std::atan2(m[1][0] / std::cos(pitch), m[0][0] / std::cos(pitch));
  }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned s = 1) const {getEulerYPR(yaw, pitch, roll, s);}

private:
  std::array<double, 3> m[3];
};
inline void fromMsg(const geometry_msgs::msg::Quaternion & in, Quaternion & out) {out = Quaternion(in.x, in.y, in.z, in.w);}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & in)
{
  geometry_msgs::msg::Quaternion q; q.x = in.x(); q.y = in.y(); q.z = in.z(); q.w = in.w(); return q;
}
inline double getYaw(const Quaternion & q)
{
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) {return -2 * std::atan2(q.y(), q.x());}
  if (sarg >= 0.99999) {return 2 * std::atan2(q.y(), q.x());}
  return std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
inline double getYaw(const geometry_msgs::msg::Quaternion & q) {return getYaw(Quaternion(q.x, q.y, q.z, q.w));}

using TimePoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
using Duration = std::chrono::nanoseconds;
const TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds(0));
struct TransformException : std::runtime_error {using std::runtime_error::runtime_error;};
struct LookupException : TransformException {using TransformException::TransformException;};
struct ConnectivityException : TransformException {using TransformException::TransformException;};
struct ExtrapolationException : TransformException {using TransformException::TransformException;};
struct InvalidArgumentException : TransformException {using TransformException::TransformException;};

// tf2_eigen
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & out)
{
  out = Eigen::Isometry3d(
    Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Affine3d & out)
{
  Eigen::Isometry3d i; fromMsg(m, i); out = Eigen::Affine3d(i.matrix());
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in)
{
  geometry_msgs::msg::Pose m;
  m.position.x = in.translation().x(); m.position.y = in.translation().y(); m.position.z = in.translation().z();
  const Eigen::Quaterniond q(in.linear());
  const double s = q.w() < 0 ? -1. : 1.;
  m.orientation.x = s * q.x(); m.orientation.y = s * q.y(); m.orientation.z = s * q.z(); m.orientation.w = s * q.w();
  return m;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x(); t.transform.translation.y = T.translation().y(); t.transform.translation.z = T.translation().z();
  const Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y(); t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & T)
{
  Eigen::Isometry3d i; i.matrix() = T.matrix(); return eigenToTransform(i);
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(
    Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
    Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) {return transformToEigen(t.transform);}

class BufferCore
{
public:
  virtual ~BufferCore() = default;
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const TimePoint &) const
  {
    geometry_msgs::msg::TransformStamped out;
    out.header.frame_id = target; out.child_frame_id = source;
    if (target == source) {return out;}
    if (target.empty() || source.empty() || target[0] == '/' || source[0] == '/') {throw InvalidArgumentException("bad frame id");}
    const auto & tf = ros_stub::state().tf;
    auto it = tf.find({target, source});
    if (it != tf.end()) {out = it->second; return out;}
    it = tf.find({source, target});
    if (it != tf.end()) {
      out = eigenToTransform(transformToEigen(it->second).inverse());
      out.header = it->second.header; out.header.frame_id = target; out.child_frame_id = source;
      return out;
    }
    throw LookupException("\"" + source + "\" passed to lookupTransform argument source_frame does not exist.");
  }
  bool canTransform(const std::string & a, const std::string & b, const TimePoint & t, std::string * = nullptr) const
  {
    try {lookupTransform(a, b, t); return true;} catch (const TransformException &) {return false;}
  }
};
}  // namespace tf2

namespace tf2_ros
{
class Buffer : public tf2::BufferCore {public: explicit Buffer(const rclcpp::Clock::SharedPtr &) {}};
class TransformListener
{
public:
  template<class ... A> explicit TransformListener(tf2::BufferCore &, A && ...) {}
};
class TransformBroadcaster
{
public:
  template<class N> explicit TransformBroadcaster(N && n) {if (!rclcpp::node_ptr(n)) {throw std::runtime_error("null node");}}
  TransformBroadcaster(const TransformBroadcaster &) = delete;
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {ros_stub::state().sent_tf.push_back(t);}
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) {for (const auto & t : v) {sendTransform(t);}}
};
class StaticTransformBroadcaster
{
public:
  template<class N> explicit StaticTransformBroadcaster(N && n) {if (!rclcpp::node_ptr(n)) {throw std::runtime_error("null node");}}
  StaticTransformBroadcaster(const StaticTransformBroadcaster &) = delete;
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {ros_stub::state().sent_static_tf.push_back(t);}
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) {for (const auto & t : v) {sendTransform(t);}}
};
}  // namespace tf2_ros

namespace rcpputils::fs
{
inline bool exists(const std::string & p)
{
  if (FILE * f = std::fopen(p.c_str(), "rb")) {std::fclose(f); return true;}
  return false;
}
}  // namespace rcpputils::fs

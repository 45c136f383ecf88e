// Starts one node of the repository in the ROS stand-in and prints its endpoints and parameters (used by pychecks/g01.py).
// usage: dump [name=type:value]...      built with -DG01_APP (an application with renamed main) or -DG01_COMPONENT=ros_stub_make_node_X
#include <cxxabi.h>
#include <cstdlib>
#include <string>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>

#ifdef G01_APP
int app_main(int, char **);
#else
std::shared_ptr<rclcpp::Node> G01_COMPONENT(const rclcpp::NodeOptions &);
#endif

namespace
{
void dump()
{
  static bool done = false;
  if (done) {return;}
  done = true;
  for (const auto & e : ros_stub::endpoint_log()) {
    int status = 0;
    char * n = abi::__cxa_demangle(e.type.c_str(), nullptr, nullptr, &status);
    std::printf("E %s %s %s %d %d\n", e.publisher ? "pub" : "sub", e.topic.c_str(), n, e.qos.reliable, e.qos.transient_local);
    std::free(n);
  }
  for (const auto & p : ros_stub::declared_log()) {std::printf("P %s %s\n", p.first.c_str(), p.second.c_str());}
  for (const auto & t : ros_stub::topics()) {
    for (const auto & w : t.second.pubs) {
      const auto p = w.lock();
      if (!p || p->type != std::type_index(typeid(sensor_msgs::msg::PointCloud2))) {continue;}
      for (const auto & m : p->stored) {
        const auto & cloud = *static_cast<const sensor_msgs::msg::PointCloud2 *>(m.get());
        std::printf("M %s %u\n", t.first.c_str(), cloud.width * cloud.height);
      }
    }
  }
  std::printf("UP\n");
  std::fflush(stdout);
}
}  // namespace

int main(int argc, char ** argv)
{
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    const auto eq = a.find('='), colon = a.find(':', eq);
    const std::string name = a.substr(0, eq), type = a.substr(eq + 1, colon - eq - 1), value = a.substr(colon + 1);
    auto & p = ros_stub::state().params[name];
    if (type == "bool") {p = value == "true";} else if (type == "int") {p = static_cast<std::int64_t>(std::stoll(value));} else if (
      type == "double") {p = std::stod(value);} else {p = value;}
  }
  ros_stub::state().spin_hook = dump;
#ifdef G01_APP
  char name[] = "node";
  char * args[] = {name, nullptr};
  return app_main(1, args);
#else
  const auto node = G01_COMPONENT(rclcpp::NodeOptions());
  dump();
  return 0;
#endif
}

#pragma once
#include "ros_stub.hpp"
#include <pcl/conversions.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/point_cloud.h>
#include <pcl/io/pcd_io.h>

namespace pcl_conversions
{
inline void fromPCL(const std::uint64_t & us, builtin_interfaces::msg::Time & t)
{
  t = rclcpp::Time(static_cast<std::int64_t>(us * 1000ull));
}
inline void toPCL(const builtin_interfaces::msg::Time & t, std::uint64_t & us) {us = static_cast<std::uint64_t>(rclcpp::Time(t).nanoseconds()) / 1000ull;}
inline void fromPCL(const pcl::PCLHeader & p, std_msgs::msg::Header & h) {fromPCL(p.stamp, h.stamp); h.frame_id = p.frame_id;}
inline void toPCL(const std_msgs::msg::Header & h, pcl::PCLHeader & p) {toPCL(h.stamp, p.stamp); p.seq = 0; p.frame_id = h.frame_id;}
inline void fromPCL(const pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m)
{
  fromPCL(p.header, m.header);
  m.height = p.height; m.width = p.width; m.is_bigendian = p.is_bigendian; m.point_step = p.point_step;
  m.row_step = p.row_step; m.is_dense = p.is_dense; m.data = p.data;
  m.fields.clear();
  for (const auto & f : p.fields) {
    sensor_msgs::msg::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count;
    m.fields.push_back(g);
  }
}
inline void toPCL(const sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p)
{
  toPCL(m.header, p.header);
  p.height = m.height; p.width = m.width; p.is_bigendian = m.is_bigendian; p.point_step = m.point_step;
  p.row_step = m.row_step; p.is_dense = m.is_dense; p.data = m.data;
  p.fields.clear();
  for (const auto & f : m.fields) {
    pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count;
    p.fields.push_back(g);
  }
}
inline void moveFromPCL(pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m) {fromPCL(p, m);}
inline void moveToPCL(sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p) {toPCL(m, p);}
}  // namespace pcl_conversions

namespace pcl
{
template<typename T>
void toROSMsg(const pcl::PointCloud<T> & cloud, sensor_msgs::msg::PointCloud2 & msg)
{
  pcl::PCLPointCloud2 p;
  pcl::toPCLPointCloud2(cloud, p);
  pcl_conversions::fromPCL(p, msg);
}
template<typename T>
void fromROSMsg(const sensor_msgs::msg::PointCloud2 & msg, pcl::PointCloud<T> & cloud)
{
  pcl::PCLPointCloud2 p;
  pcl_conversions::toPCL(msg, p);
  pcl::fromPCLPointCloud2(p, cloud);
}
namespace io
{
inline int loadPCDFile(const std::string & file, sensor_msgs::msg::PointCloud2 & cloud)
{
  pcl::PCLPointCloud2 p;
  const int r = pcl::io::loadPCDFile(file, p);
  pcl_conversions::fromPCL(p, cloud);
  return r;
}
inline int savePCDFile(const std::string & file, const sensor_msgs::msg::PointCloud2 & cloud)
{
  pcl::PCLPointCloud2 p;
  pcl_conversions::toPCL(cloud, p);
  return pcl::io::savePCDFile(file, p);
}
}  // namespace io
}  // namespace pcl

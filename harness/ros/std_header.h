#pragma once
#include "ros/ros.h"
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs { struct Point { double x = 0, y = 0, z = 0; }; struct Quaternion { double x = 0, y = 0, z = 0, w = 0; }; struct Pose { Point position; Quaternion orientation; };
struct Transform { Point translation; Quaternion rotation; }; struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; }; }

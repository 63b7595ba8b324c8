#pragma once
#include "../std_header.h"
namespace geometry_msgs { struct PoseStamped { std_msgs::Header header; Pose pose; }; }

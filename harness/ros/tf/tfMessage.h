#pragma once
#include "tf.h"
namespace tf { struct tfMessage { std::vector<geometry_msgs::TransformStamped> transforms; }; }

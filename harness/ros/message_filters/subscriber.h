#pragma once
#include "../ros/ros.h"
static std::string verif_topic;
namespace message_filters { template <class M> struct Subscriber { Subscriber(ros::NodeHandle &, const std::string &topic, uint32_t) { verif_topic = topic; } }; }

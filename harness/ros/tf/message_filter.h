#pragma once
#include "tf.h"
#include "../message_filters/subscriber.h"
namespace tf {
template <class M> struct verif_callback { static std::function<void(const boost::shared_ptr<M> &)> &f() { static auto &v = *new std::function<void(const boost::shared_ptr<M> &)>; return v; } };
template <class M> struct MessageFilter {
  MessageFilter(message_filters::Subscriber<M> &, TransformListener &, const std::string &, uint32_t) {}
  template <class T> void registerCallback(void (T::*m)(const boost::shared_ptr<M>), T *o) { verif_callback<M>::f() = [m, o](const boost::shared_ptr<M> &p) { (o->*m)(p); }; }
};
}

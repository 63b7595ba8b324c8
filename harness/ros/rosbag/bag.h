// Stand-in for bag files: the messages are given by the harness.
#pragma once
#include "../std_header.h"
namespace rosbag {
struct verif_message { std::string topic; std::shared_ptr<void> data; };
static std::vector<verif_message> verif_bag;
struct Bag { bool open = true; Bag(const std::string &) {} void close() { open = false; } };
struct TopicQuery { std::vector<std::string> topics; explicit TopicQuery(const std::vector<std::string> &t) : topics(t) {} };
struct MessageInstance {
  const verif_message *m;
  std::string getTopic() const { return m->topic; }
  template <class T> boost::shared_ptr<T> instantiate() const { return std::static_pointer_cast<T>(m->data); }
};
struct View {
  std::vector<const verif_message *> sel;
  struct iterator {
    const View *v; size_t i;
    MessageInstance operator*() const { return {v->sel[i]}; }
    iterator &operator++() { ++i; return *this; }
    iterator operator++(int) { auto r = *this; ++i; return r; }
    bool operator==(const iterator &o) const { return i == o.i; }
    bool operator!=(const iterator &o) const { return i != o.i; }
  };
  typedef iterator const_iterator;
  View(const Bag &, const TopicQuery &q) { for (auto &m : verif_bag) for (auto &t : q.topics) if (m.topic == t) { sel.push_back(&m); break; } }
  iterator begin() const { return {this, 0}; }
  iterator end() const { return {this, sel.size()}; }
};
}

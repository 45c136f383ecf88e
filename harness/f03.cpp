// F03: the ageing queue against a list model.
#include "pbt.hpp"
#include <deque>
#include <map>
#include <memory>
#include "ekf_localizer/aged_message_queue.hpp"

PROP(history_matches_model, 60000)
{
  const int max_age = static_cast<int>(c.pick({1, 2, 3, 5, 8, 0, -1}));
  const int allotted = std::max(max_age, 1);
  AgedMessageQueue<std::shared_ptr<int>> queue(max_age);
  std::deque<std::pair<int, int>> model;     // message, times returned
  std::map<int, int> returned;
  int next = 0, clears = 0, pops = 0;
  const int n = static_cast<int>(c.size(1, 80, 1000));
  for (int i = 0; i < n; i++) {
    const auto op = c.below(12);
    if (op < 4) {
      queue.push(std::make_shared<int>(next));
      model.push_back({next++, 0});
    } else if (op < 11) {
      if (model.empty()) {continue;}
      const auto m = queue.pop();
      CHECK(m != nullptr, << "empty message");
      auto want = model.front();
      model.pop_front();
      CHECK_EQ(*m, want.first, << "message out of order, max age " << max_age << ", pop " << pops);
      pops++;
      returned[want.first]++;
      if (++want.second < allotted) {model.push_back(want);}
    } else if (c.chance(1, 3)) {
      queue.clear();
      model.clear();
      clears++;
    }
    CHECK_EQ(queue.size(), model.size(), << "size after " << i + 1 << " operations, max age " << max_age);
  }
  // drain: everything still pending comes out exactly its allotted times
  while (!model.empty()) {
    CHECK(queue.size() > 0, << "queue ran dry");
    const auto m = queue.pop();
    auto want = model.front();
    model.pop_front();
    CHECK_EQ(*m, want.first, << "message out of order while draining");
    if (++returned[want.first] < 0) {return;}
    if (++want.second < allotted) {model.push_back(want);}
    CHECK_EQ(queue.size(), model.size());
  }
  CHECK_EQ(queue.size(), static_cast<std::size_t>(0));
  if (clears == 0) {
    for (int k = 0; k < next; k++) {CHECK_EQ(returned[k], allotted, << "message " << k << " with max age " << max_age);}
  }
  c.note() << next << " messages, " << pops << " pops, " << clears << " clears, max age " << max_age;
  c.nontrivial(next > 1 && pops > 1 && max_age > 1);
}

PROP(long_lived_messages, 150)
{
  // ages in the hundreds and thousands: every message is still handed out exactly its allotted times, in turn
  const int max_age = static_cast<int>(c.pick({100, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 70000}));
  const int count = static_cast<int>(c.range(1, 3));
  AgedMessageQueue<std::shared_ptr<int>> queue(max_age);
  for (int k = 0; k < count; k++) {queue.push(std::make_shared<int>(k));}
  for (int age = 0; age < max_age; age++) {
    for (int k = 0; k < count; k++) {
      CHECK(queue.size() > 0, << "empty after " << age << " of " << max_age << " rounds");
      const auto m = queue.pop();
      CHECK(m != nullptr && *m == k, << "round " << age << " of " << max_age << ": message " << (m ? *m : -1) << " instead of " << k);
    }
  }
  CHECK_EQ(queue.size(), static_cast<std::size_t>(0), << "after " << max_age << " rounds");
  c.nontrivial(true);
}

PROP(many_messages, 100)
{
  const int max_age = static_cast<int>(c.range(1, 4)), count = static_cast<int>(c.pick({255, 256, 1000, 32768, 65536, 70000}));
  AgedMessageQueue<std::shared_ptr<int>> queue(max_age);
  for (int k = 0; k < count; k++) {queue.push(std::make_shared<int>(k));}
  CHECK_EQ(queue.size(), static_cast<std::size_t>(count));
  const int rounds = max_age;
  for (int age = 0; age < rounds; age++) {
    for (int k = 0; k < count; k++) {
      const auto m = queue.pop();
      if (m == nullptr || *m != k) {CHECK(false, << "message " << (m ? *m : -1) << " instead of " << k << " in round " << age);}
    }
  }
  CHECK_EQ(queue.size(), static_cast<std::size_t>(0));
  c.nontrivial(true);
}

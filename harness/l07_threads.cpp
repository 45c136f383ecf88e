// L07: concurrent histories of the store must be explained by some sequential order. Usage: check SEED
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "lidar_feature_localization/stamp_sorted_objects.hpp"

namespace
{
struct Op
{
  int kind = 0;   // 0 insert, 1 closest, 2 remove, 3 size
  double t = 0.;
  int value = 0;
  double out_t = 0.;
  int out_v = 0;
  std::size_t size = 0;
  long begin = 0, end = 0;
};
using Model = std::map<double, int>;
bool apply(Model & m, const Op & o)
{
  switch (o.kind) {
    case 0: m[o.t] = o.value; return true;
    case 1: {
        const auto it = m.find(o.out_t);
        if (it == m.end() || it->second != o.out_v) {return false;}
        for (const auto & e : m) {if (std::fabs(e.first - o.t) < std::fabs(o.out_t - o.t)) {return false;}}
        return true;
      }
    case 2: m.erase(m.upper_bound(o.t), m.end()); return true;
    default: return m.size() == o.size;
  }
}
bool explain(const std::vector<Op> & ops, unsigned done, const Model & m, std::set<std::pair<unsigned, Model>> & seen)
{
  if (done == (1u << ops.size()) - 1) {return true;}
  if (!seen.insert({done, m}).second) {return false;}
  for (std::size_t i = 0; i < ops.size(); i++) {
    if (done >> i & 1) {continue;}
    bool first = true;   // nothing pending returned before this one began
    for (std::size_t j = 0; j < ops.size(); j++) {first = first && (j == i || (done >> j & 1) || ops[j].end > ops[i].begin);}
    if (!first) {continue;}
    Model next = m;
    if (apply(next, ops[i]) && explain(ops, done | 1u << i, next, seen)) {return true;}
  }
  return false;
}
}  // namespace

int main(int argc, char ** argv)
{
  const unsigned seed = argc > 1 ? std::strtoul(argv[1], nullptr, 10) : 1;
  std::mt19937 g(seed);
  for (int round = 0; round < 400; round++) {
    StampSortedObjects<int> store;
    store.Insert(-1., -1);   // below every removal: lookups never see an empty store
    constexpr int THREADS = 3, OPS = 5;
    std::vector<std::vector<Op>> plan(THREADS);
    int value = 0;
    for (auto & p : plan) {
      for (int k = 0; k < OPS; k++) {
        Op o;
        o.kind = std::vector<int>{0, 0, 0, 1, 1, 2, 3}[g() % 7];
        o.t = static_cast<double>(g() % 6); o.value = value++;
        p.push_back(o);
      }
    }
    std::atomic<long> clock{0};
    std::atomic<int> ready{0};
    std::vector<std::thread> threads;
    for (int i = 0; i < THREADS; i++) {
      threads.emplace_back([&, i]() {
        ready++;
        while (ready < THREADS) {}
        for (Op & o : plan[i]) {
          o.begin = clock++;
          switch (o.kind) {
            case 0: store.Insert(o.t, o.value); break;
            case 1: std::tie(o.out_t, o.out_v) = store.GetClosest(o.t); break;
            case 2: store.RemoveOlderThan(o.t); break;
            default: o.size = store.Size(); break;
          }
          o.end = clock++;
        }
      });
    }
    for (auto & t : threads) {t.join();}
    std::vector<Op> ops;
    for (const auto & p : plan) {ops.insert(ops.end(), p.begin(), p.end());}
    std::set<std::pair<unsigned, Model>> seen;
    if (!explain(ops, 0, Model{{-1., -1}}, seen)) {
      std::printf("round %d of seed %u: no sequential order explains\n", round, seed);
      const char * names[] = {"insert", "closest", "remove beyond", "size"};
      for (int i = 0; i < THREADS; i++) {
        for (const Op & o : plan[i]) {
          std::printf("thread %d [%ld, %ld] %s %g value %d -> %g %d size %zu\n", i, o.begin, o.end, names[o.kind], o.t, o.value, o.out_t, o.out_v, o.size);
        }
      }
      return 10;
    }
  }
  return 0;
}

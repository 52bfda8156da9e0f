// Union-find against an explicit partition.
//@ entry disjoint_sets_partition max-seconds=120
//@ entry disjoint_sets_deep max-seconds=120
//@ bound 4 elements with arbitrary weights, every sequence of 3 unions of any two of them, followed by lookups in every order of the first element looked up; for 16 elements united by halves, every choice of the sides and of the elements looked up first.
#include <vector>
#include "base/disjoint_sets.hpp"
#include "vf.h"

using namespace principia::base::_disjoint_sets;
using namespace principia::base::_not_null;

struct Element {
  Subset<Element>::Node* node = nullptr;
  int id;
};

namespace principia::base::_disjoint_sets::internal {
template<>
class Subset<Element>::Properties {
 public:
  Properties(std::uint32_t weight, int id) : weight(weight), members(1u << id) {}
  void MergeWith(Properties& other) {
    weight += other.weight;
    overlap |= (members & other.members) != 0 || other.overlap;
    members |= other.members;
  }
  std::uint32_t weight;
  unsigned members;
  bool overlap = false;
};
template<>
inline not_null<Subset<Element>::Node*> Subset<Element>::Node::Get(Element& e) { return e.node; }
}  // namespace

VF_HARNESS(disjoint_sets_partition) {
  constexpr int n = 4;
  Element e[n];
  Subset<Element>::Node nodes[n];
  std::uint32_t w[n];
  int part[n];
  for (int i = 0; i < n; ++i) {
    e[i].id = i;
    e[i].node = &nodes[i];
    w[i] = vf::u32("weight");
    part[i] = i;
    Subset<Element>::MakeSingleton(e[i], w[i], i);
  }
  for (int step = 0; step < 3; ++step) {
    int const a = vf_choose(n, "a"), b = vf_choose(n, "b");
    auto const u = Subset<Element>::Unite(Subset<Element>::Find(e[a]), Subset<Element>::Find(e[b]));
    int const from = part[b], to = part[a];
    for (int i = 0; i < n; ++i) if (part[i] == from) part[i] = to;
    vf_check(u == Subset<Element>::Find(e[a]) && u == Subset<Element>::Find(e[b]), "united subset");
  }
  int const first = vf_choose(n, "first");
  Subset<Element>::Find(e[first]);
  for (int i = 0; i < n; ++i) {
    auto const s = Subset<Element>::Find(e[i]);
    std::uint32_t sum = 0;
    unsigned members = 0;
    for (int j = 0; j < n; ++j) {
      vf_check((s == Subset<Element>::Find(e[j])) == (part[i] == part[j]), "same subset");
      if (part[i] == part[j]) { sum += w[j]; members |= 1u << j; }
    }
    vf_check(s.properties().weight == sum, "merged property");
    vf_check(s.properties().members == members && !s.properties().overlap, "every element exactly once");
    vf_observe("w", s.properties().weight);
  }
}

// Balanced unions give the deepest possible trees.
VF_HARNESS(disjoint_sets_deep) {
  constexpr int n = 16;
  Element e[n];
  Subset<Element>::Node nodes[n];
  std::uint32_t w[n], sum = 0;
  for (int i = 0; i < n; ++i) {
    e[i].id = i;
    e[i].node = &nodes[i];
    w[i] = vf::u32("weight");
    sum += w[i];
    Subset<Element>::MakeSingleton(e[i], w[i], i);
  }
  int step = 1;
  // The subsets are kept, so that no lookup compresses the paths.
  std::vector<Subset<Element>> roots;
  for (int i = 0; i < n; ++i) roots.push_back(Subset<Element>::Find(e[i]));
  for (; roots.size() > 1; step *= 2) {
    int const side = vf_choose(2, "side");
    std::vector<Subset<Element>> next;
    for (std::size_t i = 0; i < roots.size(); i += 2)
      next.push_back(Subset<Element>::Unite(roots[i + side], roots[i + 1 - side]));
    roots.swap(next);
  }
  int const first = vf_choose(n, "first");
  vf_check(Subset<Element>::Find(e[first]) == roots[0], "deep lookup");
  for (int i = 0; i < n; ++i) {
    auto const s = Subset<Element>::Find(e[i]);
    vf_check(s == roots[0], "deep lookup");
    vf_check(s.properties().weight == sum, "merged property");
    vf_check(s.properties().members == 0xffff && !s.properties().overlap, "every element exactly once");
  }
}

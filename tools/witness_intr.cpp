// Analysis translation unit for the intrusive containers: every member function instantiated for a type of our own with an
// ordering the analysis knows nothing about but that it is one.
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <crab/intrusive_heap.hpp>
#include <crab/intrusive_list.hpp>

namespace crabsa_witness {
struct Item {
	long before;
	crab::IntrusiveNode<Item> node;
	long between;
	crab::IntrusiveHeapIndex index;
	long key;
};
struct Less {
	bool operator()(const Item &a, const Item &b) const;
};
using Heap        = crab::IntrusiveHeap<Item, &Item::index, Less>;
using CheckedHeap = crab::IntrusiveHeap<Item, &Item::index, Less, true>;
using List        = crab::IntrusiveList<Item, &Item::node>;
using Iterator    = crab::IntrusiveIterator<Item, &Item::node>;
template<class T>
void destroy(T *p) {
	p->~T();
}
template<class T>
void construct(T *p) {
	new (p) T();
}
template void destroy(Item *);
template void construct(Item *);
template void destroy(List *);
template void construct(List *);
template void construct(Heap *);
template void construct(CheckedHeap *);
extern const bool copyable_Item, copyable_Node, copyable_Index, copyable_List;
template<class T>
constexpr bool copies() {
	return std::is_copy_constructible<T>::value || std::is_copy_assignable<T>::value || std::is_move_constructible<T>::value || std::is_move_assignable<T>::value;
}
const bool copyable_Item  = copies<Item>();
const bool copyable_Node  = copies<crab::IntrusiveNode<Item>>();
const bool copyable_Index = copies<crab::IntrusiveHeapIndex>();
const bool copyable_List  = copies<List>();
}  // namespace crabsa_witness
template class crab::IntrusiveNode<crabsa_witness::Item>;
template class crab::IntrusiveIterator<crabsa_witness::Item, &crabsa_witness::Item::node>;
template class crab::IntrusiveList<crabsa_witness::Item, &crabsa_witness::Item::node>;
template class crab::IntrusiveHeap<crabsa_witness::Item, &crabsa_witness::Item::index, crabsa_witness::Less>;
template class crab::IntrusiveHeap<crabsa_witness::Item, &crabsa_witness::Item::index, crabsa_witness::Less, true>;

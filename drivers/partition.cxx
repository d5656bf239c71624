#include <cstddef>
#include "opengm/datastructures/partition.hxx"
typedef opengm::Partition<size_t> P;
void use(P& p, const P& cp, size_t a, size_t b) {
   P d; P e(a);
   p.find(a); cp.find(b); p.numberOfElements(); p.numberOfSets(); p.reset(a); p.merge(a,b); p.insert(a);
   std::vector<size_t> v(a);
   cp.representatives(v.begin());
   cp.elementLabeling(v.begin());
}

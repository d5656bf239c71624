#include "harness.hxx"
#include "opengm/datastructures/partition.hxx"

// model: label per element
template<class T>
static bool agree(opengm::Partition<T>& p, std::vector<int>& m, bool mut) {
   size_t n = m.size();
   if (p.numberOfElements() != (T)n) { nv::report("numberOfElements"); return false; }
   std::set<int> s(m.begin(), m.end());
   if (p.numberOfSets() != (T)s.size()) { nv::report("numberOfSets"); return false; }
   const opengm::Partition<T>& c = p;
   std::vector<T> f(n);
   for (size_t i = 0; i < n; ++i) f[i] = c.find((T)i);
   for (size_t i = 0; i < n; ++i) {
      if (f[i] >= (T)n || c.find(f[i]) != f[i]) { nv::report("find returns a representative"); return false; }
      for (size_t j = 0; j < n; ++j) if ((f[i] == f[j]) != (m[i] == m[j])) { nv::report("same representative iff merged"); return false; }
   }
   if (mut) for (size_t i = 0; i < n; ++i) if (p.find((T)i) != f[i]) { nv::report("find with path compression agrees with const find"); return false; }
   std::vector<T> r(s.size());
   p.representatives(r.begin());
   for (size_t i = 0; i < r.size(); ++i) if (r[i] >= (T)n || c.find(r[i]) != r[i] || (i && r[i] <= r[i-1])) { nv::report("representatives"); return false; }
   std::map<T, T> rl; rl[(T)123456] = 7;
   p.representativeLabeling(rl);
   if (rl.size() != r.size()) { nv::report("representativeLabeling size"); return false; }
   for (size_t i = 0; i < r.size(); ++i) if (!rl.count(r[i]) || rl[r[i]] != (T)i) { nv::report("representativeLabeling"); return false; }
   std::vector<T> l(n);
   p.elementLabeling(l.begin());
   for (size_t i = 0; i < n; ++i) {
      if (l[i] >= (T)s.size()) { nv::report("elementLabeling range"); return false; }
      for (size_t j = 0; j < n; ++j) if ((l[i] == l[j]) != (m[i] == m[j])) { nv::report("elementLabeling"); return false; }
   }
   return true;
}
template<class T> static void history(size_t maxn, size_t steps, size_t reps) {
   for (size_t rep = 0; rep < reps && !nv::enough(); ++rep) {
      size_t n = nv::rnd(maxn);
      opengm::Partition<T> p((T)n);
      if (n == 0 && nv::rnd(2)) p = opengm::Partition<T>();
      std::vector<int> m(n);
      for (size_t i = 0; i < n; ++i) m[i] = (int)i;
      int next = (int)n;
      std::ostringstream h; h << "Partition(" << n << ")";
      for (size_t s = 0; s < steps; ++s) {
         size_t op = nv::rnd(12);
         if (op == 0) { size_t k = nv::rnd(4); h << " insert(" << k << ")"; CASE(h.str()); p.insert((T)k); for (size_t i = 0; i < k; ++i) m.push_back(next++); }
         else if (op == 1 && nv::rnd(4) == 0) { size_t k = nv::rnd(maxn); h << " reset(" << k << ")"; CASE(h.str()); p.reset((T)k); m.assign(k, 0); for (size_t i = 0; i < k; ++i) m[i] = next++; }
         else if (!m.empty() && op < 9) { size_t a = nv::rnd(m.size()), b = nv::rnd(m.size()); h << " merge(" << a << "," << b << ")"; CASE(h.str()); p.merge((T)a, (T)b); int x = m[a], y = m[b]; for (auto& q : m) if (q == y) q = x; }
         else if (!m.empty()) { size_t a = nv::rnd(m.size()); h << " find(" << a << ")"; CASE(h.str()); p.find((T)a); }
         if (!agree(p, m, nv::rnd(3) == 0)) return;
      }
   }
}
SECTION(s1, "Partition<size_t>") { history<size_t>(8, 14, nv::thorough ? 60000 : 6000); history<size_t>(40, 60, nv::thorough ? 600 : 60); }
SECTION(s2, "Partition<int>") { history<int>(8, 14, nv::thorough ? 20000 : 2000); }
SECTION(s3, "Partition<unsigned char>") { history<unsigned char>(8, 14, 1000); }

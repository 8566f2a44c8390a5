// Selective copies between the two slots.
#include "viennagrid/mesh/mesh_operations.hpp"
static void drop_seg(int n) { delete S[n]; S[n] = 0; }
struct ModFilter { long m, r; ModFilter(long m_, long r_) : m(m_), r(r_) {} bool operator()(Cell const & c) const { return idof(c) % m == r; } };
struct CopyOne
{
  Mesh & src; Mesh & dst; long n; double tol; bool withmap;
  CopyOne(Mesh & s, Mesh & d, long n_, double t, bool w) : src(s), dst(d), n(n_), tol(t), withmap(w) {}
  template<int K> void call()
  {
    typedef typename LT<K>::type Tag;
    typedef typename viennagrid::result_of::element_range<Mesh, Tag>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    typedef typename viennagrid::result_of::handle<Mesh, Tag>::type H;
    Range r(src);
    if (r.size() == 0) { failed = true; return; }
    It it = r.begin();
    for (long i = 0; i < n % static_cast<long>(r.size()); ++i) ++it;
    H h;
    if (withmap) { viennagrid::vertex_copy_map<Mesh, Mesh> vm(dst); h = tol > 0 ? vm.copy_element(*it, tol) : vm.copy_element(*it); }
    else h = tol > 0 ? viennagrid::copy_element(*it, dst, tol) : viennagrid::copy_element(*it, dst);
    R << "[" << idof(*it) << "," << idof(viennagrid::dereference_handle(dst, h)) << "]";
  }
};
template<> void CopyOne::call<0>() { failed = true; }
static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool & mut)
{
  (void)mut;
  if (op[0] != 'y') return false;
  int n = static_cast<int>(a[1]) & 1;
  if (n == m) { failed = true; return true; }
  Mesh const & src = *M[m];
  if (op == "yf") { drop_seg(n); viennagrid::copy(src, *M[n], ModFilter(a[2], a[3])); R << 0; return true; }
  if (op == "ys") { seg(m); seg(n); viennagrid::copy(src, *S[m], *M[n], *S[n], ModFilter(a[2], a[3])); R << 0; return true; }
  if (op == "yg") { drop_seg(n); *M[n] = src; seg(m); seg(n); viennagrid::copy_segmentation(src, *S[m], *M[n], *S[n]); R << 0; return true; }
  if (op == "ye" || op == "yh")      // src dst from count tol(halves)
  {
    typedef viennagrid::result_of::const_cell_range<Mesh>::type CR; typedef viennagrid::result_of::iterator<CR>::type CI;
    typedef viennagrid::result_of::const_cell_handle<Mesh>::type CH;
    CR r(src);
    std::vector<long> ids; std::vector<CH> hs;
    CI b = r.begin(); long i = 0;
    for (; i < a[2] && b != r.end(); ++i) ++b;
    CI e = b;
    for (i = 0; i < a[3] && e != r.end(); ++i) { ids.push_back(idof(*e)); hs.push_back(e.handle()); ++e; }
    double tol = a[4] / 2.0;
    if (op == "ye") { if (tol > 0) viennagrid::copy_elements(b, e, *M[n], tol); else viennagrid::copy_elements(b, e, *M[n]); }
    else            { if (tol > 0) viennagrid::copy_elements_by_handle(src, hs.begin(), hs.end(), *M[n], tol); else viennagrid::copy_elements_by_handle(src, hs.begin(), hs.end(), *M[n]); }
    R << jlist(ids);
    return true;
  }
  if (op == "y1") { CopyOne f(*M[m], *M[n], a[3], a[4] / 2.0, a[5] != 0); level(a[2], f); return true; }
  return false;
}

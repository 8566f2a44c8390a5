// Core conformance driver: executes one script of mesh / segmentation operations per history on the real
// ViennaGrid code and logs one NDJSON event per operation: the call, its result and the projected state.
#include "common.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/algorithm/interface.hpp"
using namespace vh;

static Mesh * M[2];
static Segmentation * S[2];
static std::ostringstream R;      // result of the current operation
static bool failed;               // operation not executable (unknown id)

static Segmentation & seg(int m) { if (!S[m]) S[m] = new Segmentation(*M[m]); return *S[m]; }
static void fresh()
{
  for (int i = 0; i < 2; ++i) { delete S[i]; S[i] = 0; delete M[i]; M[i] = new Mesh(); }
}
static std::string state()
{
  std::ostringstream o;
  o << "[";
  for (int i = 0; i < 2; ++i)
  {
    if (i) o << ",";
    o << "{"; meshdump(o, *M[i]); o << ",\"S\":";
    if (S[i]) segdump(o, static_cast<Segmentation const &>(*S[i])); else o << "[]";
    o << "}";
  }
  o << "]";
  return o.str();
}
// "v1,v2,..": id of the element with these vertices (its level follows from the number of vertices), -1 if there is none
template<int K> long bykey(Mesh & m, std::set<long> const & key)
{
  typedef typename viennagrid::result_of::element_range<Mesh, typename LT<K>::type>::type Range;
  typedef typename viennagrid::result_of::iterator<Range>::type It;
  Range r(m);
  for (It it = r.begin(); it != r.end(); ++it)
  {
    std::vector<long> v = subs<K,0>::get(*it);
    if (std::set<long>(v.begin(), v.end()) == key) return idof(*it);
  }
  return -1;
}
template<int K, bool in = (K >= 1 && K <= D)> struct bykey_
{
  static long go(Mesh & m, std::set<long> const & key)
  { return static_cast<int>(key.size()) == viennagrid::boundary_elements<typename LT<K>::type, viennagrid::vertex_tag>::num ? bykey<K>(m, key) : bykey_<K-1>::go(m, key); }
};
template<int K> struct bykey_<K, false> { static long go(Mesh &, std::set<long> const &) { return -1; } };
static long resolve(Mesh & m, std::string const & tok)
{
  std::set<long> key; std::istringstream s(tok); std::string part;
  while (std::getline(s, part, ',')) key.insert(std::atol(part.c_str()));
  return bykey_<D>::go(m, key);
}
static bool vhandles(Mesh & m, std::vector<long> const & ids, std::size_t from, std::vector<VertexHandle> & out)
{
  for (std::size_t i = from; i < ids.size(); ++i)
  {
    bool ok; VertexHandle h = byid<0>(m, ids[i], ok);
    if (!ok) return false;
    out.push_back(h);
  }
  return true;
}
// ---- level dispatch -----------------------------------------------------------
template<int K, bool in = (K <= D)> struct at_ { template<typename F> static void go(F & f) { f.template call<K>(); } };
template<int K> struct at_<K, false> { template<typename F> static void go(F &) { failed = true; } };
template<typename F> void level(long k, F & f)
{
  switch (k) { case 0: at_<0>::go(f); break; case 1: at_<1>::go(f); break; case 2: at_<2>::go(f); break; case 3: at_<3>::go(f); break; default: failed = true; }
}
template<int K, int L, bool in = (K < L && L <= D)> struct at2_ { template<typename F> static void go(F & f) { f.template call<K,L>(); } };
template<int K, int L> struct at2_<K, L, false> { template<typename F> static void go(F &) { failed = true; } };
template<typename F> void level2(long k, long l, F & f)
{
  if (k==0 && l==1) at2_<0,1>::go(f); else if (k==0 && l==2) at2_<0,2>::go(f); else if (k==0 && l==3) at2_<0,3>::go(f);
  else if (k==1 && l==2) at2_<1,2>::go(f); else if (k==1 && l==3) at2_<1,3>::go(f); else if (k==2 && l==3) at2_<2,3>::go(f);
  else failed = true;
}
// ---- operations ---------------------------------------------------------------
static long turn;      // position in the history: equivalent ways to call the library take turns
// the functions named after the element
template<typename Tag> struct make_named { template<typename H> static typename viennagrid::result_of::handle<Mesh, Tag>::type go(H & h, std::vector<VertexHandle> & v) { return viennagrid::make_element<Tag>(h, v.begin(), v.end()); } };
template<> struct make_named<viennagrid::line_tag> { template<typename H> static viennagrid::result_of::handle<Mesh, viennagrid::line_tag>::type go(H & h, std::vector<VertexHandle> & v) { if (turn % 2) return viennagrid::make_edge(h, v[0], v[1]); return viennagrid::make_line(h, v[0], v[1]); } };
#if CT == 2 || CT == 4 || CT == 6
template<> struct make_named<viennagrid::triangle_tag> { template<typename H> static viennagrid::result_of::handle<Mesh, viennagrid::triangle_tag>::type go(H & h, std::vector<VertexHandle> & v) { return viennagrid::make_triangle(h, v[0], v[1], v[2]); } };
#endif
#if CT == 3 || CT == 5 || CT == 8
template<> struct make_named<viennagrid::quadrilateral_tag> { template<typename H> static viennagrid::result_of::handle<Mesh, viennagrid::quadrilateral_tag>::type go(H & h, std::vector<VertexHandle> & v) { return viennagrid::make_quadrilateral(h, v[0], v[1], v[2], v[3]); } };
#endif
#if CT == 4
template<> struct make_named<viennagrid::tetrahedron_tag> { template<typename H> static viennagrid::result_of::handle<Mesh, viennagrid::tetrahedron_tag>::type go(H & h, std::vector<VertexHandle> & v) { return viennagrid::make_tetrahedron(h, v[0], v[1], v[2], v[3]); } };
#endif
#if CT == 5
template<> struct make_named<viennagrid::hexahedron_tag> { template<typename H> static viennagrid::result_of::handle<Mesh, viennagrid::hexahedron_tag>::type go(H & h, std::vector<VertexHandle> & v) { return viennagrid::make_hexahedron(h, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); } };
#endif
template<typename Tag, typename H> typename viennagrid::result_of::handle<Mesh, Tag>::type make_any(H & h, std::vector<VertexHandle> & v)
{ if (turn / 2 % 2) return make_named<Tag>::go(h, v); return viennagrid::make_element<Tag>(h, v.begin(), v.end()); }
template<typename H> CellHandle make_cell_any(H & h, std::vector<VertexHandle> & v) { if (turn % 3 == 0) return viennagrid::make_cell(h, v.begin(), v.end()); return make_any<CellTag>(h, v); }
struct MakeElem
{
  Mesh & m; std::vector<VertexHandle> & vh;
  MakeElem(Mesh & m_, std::vector<VertexHandle> & v) : m(m_), vh(v) {}
  template<int K> void call()
  {
    typedef typename LT<K>::type Tag;
    R << idof(viennagrid::dereference_handle(m, make_any<Tag>(m, vh)));
  }
};
template<> void MakeElem::call<0>() { failed = true; }
struct Erase
{
  Mesh & m; long id; Erase(Mesh & m_, long i) : m(m_), id(i) {}
  template<int K> void call()
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type h = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    viennagrid::erase_element(m, h);
  }
};
typedef viennagrid::result_of::mesh_view<Mesh>::type MView;
struct Mark
{
  Mesh & m; MView & v; long id; Mark(Mesh & m_, MView & v_, long i) : m(m_), v(v_), id(i) {}
  template<int K> void call()
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type h = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    viennagrid::mark_erase_elements(m, v, h);
  }
};
struct SegAdd
{
  Mesh & m; Segment & s; long id; SegAdd(Mesh & m_, Segment & s_, long i) : m(m_), s(s_), id(i) {}
  template<int K> void call()
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type h = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    int ids[1] = { s.id() };
    if (turn % 4 == 0) viennagrid::add(s, viennagrid::dereference_handle(m, h));
    else if (turn % 4 == 1) viennagrid::add(s, h);
    else if (turn % 4 == 2) viennagrid::add(s.parent(), s.id(), viennagrid::dereference_handle(m, h));
    else viennagrid::add(s.parent(), ids, ids + 1, viennagrid::dereference_handle(m, h));
  }
};
struct SegErase
{
  Mesh & m; Segment & s; long id; SegErase(Mesh & m_, Segment & s_, long i) : m(m_), s(s_), id(i) {}
  template<int K> void call()
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type h = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    viennagrid::erase(s, viennagrid::dereference_handle(m, h));
  }
};
template<typename RangeT> std::string rids(RangeT r)
{
  typedef typename viennagrid::result_of::iterator<RangeT>::type It;
  std::vector<long> out;
  for (It it = r.begin(); it != r.end(); ++it) out.push_back(idof(*it));
  return jlist(out);
}
template<typename HostT> struct Cob      // co-boundary through the mutable interface
{
  Mesh & m; HostT & h; long id; Cob(Mesh & m_, HostT & h_, long i) : m(m_), h(h_), id(i) {}
  template<int K, int L> void call()
  {
    typedef typename LT<K>::type KT; typedef typename LT<L>::type LTag;
    bool ok; typename viennagrid::result_of::handle<Mesh, KT>::type e = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    typedef typename viennagrid::result_of::coboundary_range<HostT, KT, LTag>::type Range;
    R << rids<Range>(viennagrid::coboundary_elements<KT, LTag>(h, e));
  }
};
template<typename HostT> struct Ngb      // elements of level L sharing a level-K element
{
  Mesh & m; HostT & h; long id; Ngb(Mesh & m_, HostT & h_, long i) : m(m_), h(h_), id(i) {}
  template<int K, int L> void call()
  {
    typedef typename LT<K>::type KT; typedef typename LT<L>::type LTag;
    bool ok; typename viennagrid::result_of::handle<Mesh, LTag>::type e = byid<L>(m, id, ok);
    if (!ok) { failed = true; return; }
    typedef typename viennagrid::result_of::neighbor_range<HostT, LTag, KT>::type Range;
    R << rids<Range>(viennagrid::neighbor_elements<LTag, KT>(h, e));
  }
};
template<typename HostT> struct Bnd
{
  Mesh & m; HostT & h; long id; Bnd(Mesh & m_, HostT & h_, long i) : m(m_), h(h_), id(i) {}
  template<int K> void call() { go<K>(vh::bool_<(K < D)>()); }
  template<int K> void go(vh::bool_<false>) { failed = true; }
  template<int K> void go(vh::bool_<true>)
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type e = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    R << (viennagrid::is_boundary(h, viennagrid::dereference_handle(m, e)) ? 1 : 0);
  }
};
struct Ifc
{
  Mesh & m; Segment & s; Segment & t; long id; Ifc(Mesh & m_, Segment & s_, Segment & t_, long i) : m(m_), s(s_), t(t_), id(i) {}
  template<int K> void call() { go<K>(vh::bool_<(K < D)>()); }
  template<int K> void go(vh::bool_<false>) { failed = true; }
  template<int K> void go(vh::bool_<true>)
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type e = byid<K>(m, id, ok);
    if (!ok) { failed = true; return; }
    R << (viennagrid::is_interface(s, t, viennagrid::dereference_handle(m, e)) ? 1 : 0);
  }
};
// ---- full query dumps (const interface) ---------------------------------------
static std::ostringstream Q;
static bool qfirst;
static void qsep() { if (!qfirst) Q << ","; qfirst = false; }
template<typename HostT> struct AllCob
{
  HostT const & h; AllCob(HostT const & h_) : h(h_) {}
  template<int K, int L> void call()
  {
    typedef typename LT<K>::type KT; typedef typename LT<L>::type LTag;
    typedef typename viennagrid::result_of::const_element_range<HostT, KT>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    typedef typename viennagrid::result_of::const_coboundary_range<HostT, KT, LTag>::type CRange;
    Range r(h);
    for (It it = r.begin(); it != r.end(); ++it)
    {
      qsep(); Q << "[" << K << "," << L << "," << idof(*it) << "," << rids<CRange>(viennagrid::coboundary_elements<KT, LTag>(h, it.handle())) << "]";
    }
  }
};
template<typename HostT> struct AllNgb
{
  HostT const & h; AllNgb(HostT const & h_) : h(h_) {}
  template<int K, int L> void call()
  {
    typedef typename LT<K>::type KT; typedef typename LT<L>::type LTag;
    typedef typename viennagrid::result_of::const_element_range<HostT, LTag>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    typedef typename viennagrid::result_of::const_neighbor_range<HostT, LTag, KT>::type CRange;
    Range r(h);
    for (It it = r.begin(); it != r.end(); ++it)
    {
      qsep(); Q << "[" << K << "," << L << "," << idof(*it) << "," << rids<CRange>(viennagrid::neighbor_elements<LTag, KT>(h, it.handle())) << "]";
    }
  }
};
template<typename HostT> struct AllBnd
{
  HostT const & h; Mesh const & m; AllBnd(HostT const & h_, Mesh const & m_) : h(h_), m(m_) {}
  template<int K> void call() { go<K>(vh::bool_<(K < D)>()); }
  template<int K> void go(vh::bool_<false>) {}
  template<int K> void go(vh::bool_<true>)
  {
    typedef typename viennagrid::result_of::const_element_range<HostT, typename LT<K>::type>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(h);
    for (It it = r.begin(); it != r.end(); ++it)
    { qsep(); Q << "[" << K << "," << idof(*it) << "," << (viennagrid::is_boundary(h, *it) ? 1 : 0) << "]"; }
  }
};
struct AllIfc
{
  Segment const & s; Segment const & t; Mesh const & m; AllIfc(Segment const & s_, Segment const & t_, Mesh const & m_) : s(s_), t(t_), m(m_) {}
  template<int K> void call() { go<K>(vh::bool_<(K < D)>()); }
  template<int K> void go(vh::bool_<false>) {}
  template<int K> void go(vh::bool_<true>)
  {
    typedef typename viennagrid::result_of::const_element_range<Mesh, typename LT<K>::type>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    for (It it = r.begin(); it != r.end(); ++it)
    { qsep(); Q << "[" << s.id() << "," << t.id() << "," << K << "," << idof(*it) << "," << (viennagrid::is_interface(s, t, *it) ? 1 : 0) << "]"; }
  }
};
struct AllMem     // is_in_segment for every segment, segment_ids, for every mesh element
{
  Segmentation const & sg; Mesh const & m; AllMem(Segmentation const & s_, Mesh const & m_) : sg(s_), m(m_) {}
  template<int K> void call()
  {
    typedef typename LT<K>::type Tag;
    typedef typename viennagrid::result_of::const_element_range<Mesh, Tag>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    typedef typename viennagrid::result_of::element<Mesh, Tag>::type E;
    Range r(m);
    for (It it = r.begin(); it != r.end(); ++it)
    {
      std::vector<long> in;
      for (Segmentation::const_iterator s = sg.begin(); s != sg.end(); ++s) if (viennagrid::is_in_segment(*s, *it)) in.push_back(s->id());
      std::vector<long> ids;
      typedef typename viennagrid::result_of::segment_id_range<Segmentation, E>::type IdRange;
      IdRange ir = viennagrid::segment_ids(sg, *it);
      for (typename IdRange::iterator i = ir.begin(); i != ir.end(); ++i) ids.push_back(*i);
      std::vector<long> cids; for (typename IdRange::const_iterator i = ir.cbegin(); i != ir.cend(); ++i) cids.push_back(*i);
      if (cids != ids || ir.size() != ids.size() || ir.empty() != ids.empty()) ids.push_back(-5);
      std::sort(cids.begin(), cids.end());
      for (It jt = r.begin(); jt != r.end(); ++jt)      // equal iff the same set of segments
      {
        std::vector<long> o; IdRange jr = viennagrid::segment_ids(sg, *jt); for (typename IdRange::iterator i = jr.begin(); i != jr.end(); ++i) o.push_back(*i);
        std::sort(o.begin(), o.end());
        if ((o == cids) != (ir.is_equal(jr) != 0)) { ids.push_back(-6); break; }
      }
      qsep(); Q << "[" << K << "," << idof(*it) << "," << jlist(in) << "," << jlist(ids) << "]";
    }
  }
};
template<int K> struct allk { template<typename F> static void go(F & f) { allk<K-1>::go(f); f.template call<K>(); } };
template<> struct allk<-1> { template<typename F> static void go(F &) {} };
template<typename F> void all2(F & f)
{
  bool save = failed;
  level2(0,1,f); level2(0,2,f); level2(0,3,f); level2(1,2,f); level2(1,3,f); level2(2,3,f);
  failed = save;
}
template<typename F> std::string run2(F f) { Q.str(""); qfirst = true; all2(f); return "[" + Q.str() + "]"; }
template<typename F> std::string run1(F f) { Q.str(""); qfirst = true; allk<D>::go(f); return "[" + Q.str() + "]"; }

static std::string dumpcob(int m)
{
  std::ostringstream o;
  o << "{\"m\":" << run2(AllCob<Mesh>(*M[m])) << ",\"s\":[";
  bool first = true;
  if (S[m]) for (Segmentation::const_iterator s = static_cast<Segmentation const &>(*S[m]).begin(); s != static_cast<Segmentation const &>(*S[m]).end(); ++s)
  { if (!first) o << ","; first = false; o << "{\"i\":" << s->id() << ",\"q\":" << run2(AllCob<Segment>(*s)) << "}"; }
  o << "]}"; return o.str();
}
static std::string dumpngb(int m)
{
  std::ostringstream o;
  o << "{\"m\":" << run2(AllNgb<Mesh>(*M[m])) << ",\"s\":[";
  bool first = true;
  if (S[m]) for (Segmentation::const_iterator s = static_cast<Segmentation const &>(*S[m]).begin(); s != static_cast<Segmentation const &>(*S[m]).end(); ++s)
  { if (!first) o << ","; first = false; o << "{\"i\":" << s->id() << ",\"q\":" << run2(AllNgb<Segment>(*s)) << "}"; }
  o << "]}"; return o.str();
}
static std::string dumpbnd(int m)
{
  std::ostringstream o;
  o << "{\"m\":" << run1(AllBnd<Mesh>(*M[m], *M[m])) << ",\"s\":[";
  bool first = true;
  if (S[m]) for (Segmentation::const_iterator s = static_cast<Segmentation const &>(*S[m]).begin(); s != static_cast<Segmentation const &>(*S[m]).end(); ++s)
  { if (!first) o << ","; first = false; o << "{\"i\":" << s->id() << ",\"q\":" << run1(AllBnd<Segment>(*s, *M[m])) << "}"; }
  o << "]}"; return o.str();
}
static std::string dumpifc(int m)
{
  std::ostringstream o; o << "[";
  bool first = true;
  if (S[m])
  {
    Segmentation const & sg = *S[m];
    for (Segmentation::const_iterator s = sg.begin(); s != sg.end(); ++s)
      for (Segmentation::const_iterator t = sg.begin(); t != sg.end(); ++t)
        if (s->id() != t->id())
        { std::string q = run1(AllIfc(*s, *t, *M[m])); if (q.size() > 2) { if (!first) o << ","; first = false; o << q.substr(1, q.size()-2); } }
  }
  o << "]"; return o.str();
}
static std::string dumpmem(int m)
{
  std::ostringstream o;
  Segmentation & sg = seg(m);
  o << "{\"q\":" << run1(AllMem(sg, *M[m])) << ",\"all\":[";
  upto<D>::ids(o, sg);
  o << "],\"size\":" << sg.size() << ",\"name\":[";
  // lookups by id and by name must find the very segment that iteration shows
  bool first = true;
  for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s)
  {
    if (!first) o << ","; first = false;
    long byid_ = -1, byname = -1;
    try { byid_ = sg.get_segment(s->id()).id(); } catch (std::exception const &) {}
    try { byname = sg.get_segment(s->name()).id(); } catch (std::exception const &) {}
    o << "[" << s->id() << "," << (sg.segment_present(s->id()) ? 1 : 0) << "," << byid_ << "," << byname << "]";
  }
  // every other access path: ids seen through it, -5 if it is not the segment of the registry
  o << "],\"acc\":[";
  Segmentation const & cs = sg; first = true; long top = -1;
  for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s)
  {
    std::set<long> w; Segment const * me = &*s; int i = s->id(); std::string n = s->name(); top = std::max<long>(top, i);
    Segment const * p[] = { &sg.get_segment(i), &cs.get_segment(i), &sg.get_segment(n), &cs.get_segment(n), &sg(i), &cs(i), &sg[i], &cs[i], &cs.at(i), &sg(n), &cs(n), &sg[n], &cs[n], &cs.at(n), &*sg.find(i), &*cs.find(i), &sg.get_make_segment(i), &sg.get_make_segment(n) };
    for (std::size_t j = 0; j < sizeof(p) / sizeof(*p); ++j) w.insert(p[j] == me ? p[j]->id() : -5);
    if (&s->parent() != &sg || &s->mesh() != M[m] || &me->parent() != &sg || &me->mesh() != M[m]) w.insert(-6);
    for (Segmentation::const_iterator t = cs.cbegin(); t != cs.cend(); ++t) if ((*s < *t) != (s->id() < t->id())) w.insert(-7);
    o << (first ? "" : ",") << "[" << i << "," << jlist(std::vector<long>(w.begin(), w.end())) << "]"; first = false;
  }
  // what is found among a range of ids and among some names
  std::vector<long> found, order; std::ostringstream fn;
  for (int i = -1; i <= top + 2; ++i)
  {
    bool f = sg.find(i) != sg.end(), c = cs.find(i) != cs.end(), a = true;
    try { cs.at(i); } catch (std::exception const &) { a = false; }
    if (f != c || f != a || f != cs.segment_present(i)) found.push_back(-5); else if (f) found.push_back(i);
  }
  static const char * names[] = { "a", "ab", "abc", "b", "0", "1", "2", "10", "", "A", "a ", "none" };
  for (std::size_t j = 0; j < sizeof(names) / sizeof(*names); ++j)
  {
    long id = -1; try { id = cs.at(std::string(names[j])).id(); } catch (std::exception const &) {}
    fn << (j ? "," : "") << "[" << jstr(names[j]) << "," << id << "]";
  }
  for (Segmentation::const_iterator t = cs.begin(); t != cs.end(); t++) order.push_back(t->id());
  o << "],\"found\":" << jlist(found) << ",\"fname\":[" << fn.str() << "],\"it\":" << jlist(order) << ",\"empty\":" << (cs.empty() ? 1 : 0) << ",\"up\":" << static_cast<long>(cs.id_upper_bound()) << "}";
  return o.str();
}

// vertices of sub-elements as their host sees them (const and non-const access must agree)
struct LocalV
{
  Mesh & m; bool & first; LocalV(Mesh & m_, bool & f) : m(m_), first(f) {}
  template<int K, int L> void call()
  {
    typedef typename viennagrid::result_of::element<Mesh, typename LT<L>::type>::type Host;
    typedef typename viennagrid::result_of::element_range<Mesh, typename LT<L>::type>::type HR;
    typedef typename viennagrid::result_of::element_range<Host, typename LT<K>::type>::type SR;
    HR hr(m);
    for (typename viennagrid::result_of::iterator<HR>::type h = hr.begin(); h != hr.end(); ++h)
    {
      Host & host = *h; Host const & chost = host;
      SR sr(host); long j = 0;
      for (typename viennagrid::result_of::iterator<SR>::type s = sr.begin(); s != sr.end(); ++s)
      {
        R << (first ? "" : ",") << "[" << L << "," << idof(host) << "," << K << "," << ++j << ",["; first = false;
        std::size_t n = viennagrid::vertices(*s).size();
        for (std::size_t i = 0; i < n; ++i)
        {
          long v = idof(viennagrid::dereference_handle(m, viennagrid::local_vertex(host, s.handle(), i)));
          if (idof(viennagrid::dereference_handle(static_cast<Mesh const &>(m), viennagrid::local_vertex(chost, s.handle(), i))) != v) v = -7;
          R << (i ? "," : "") << v;
        }
        R << "]]";
      }
    }
  }
};
static void localv(Mesh & m)
{
  bool first = true; LocalV f(m, first); R << "[";
  if (D > 1) at2_<1, 2>::go(f);
  if (D > 2) { at2_<1, 3>::go(f); at2_<2, 3>::go(f); }
  R << "]";
}

#include "lattice.hpp"
#ifdef FEAT
#include FEAT
#else
static bool feature(std::string const &, std::vector<long> const &, std::string const &, int, bool &) { return false; }
#endif

int main(int argc, char ** argv)
{
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  (void)argc;
  fresh();
  std::string line;
  while (std::getline(in, line))
  {
    ++turn;
    std::istringstream ls(line);
    std::string op; ls >> op;
    if (op.empty()) continue;
    std::vector<long> a; std::string tok, name;
    while (ls >> tok)
    {
      if (tok[0] == '"') name = tok.substr(1);
      else if (tok.find(',') != std::string::npos) a.push_back(resolve(*M[a.empty() ? 0 : (a[0] & 1)], tok));
      else a.push_back(std::atol(tok.c_str()));
    }
    R.str(""); failed = false;
    int exc = 0; bool mut = true;
    int m = (a.size() > 0 && op != "R") ? static_cast<int>(a[0]) & 1 : 0;
    std::cerr << line << std::endl;          // last line on stderr names the operation that crashed
    try
    {
      if ((op == "sr" || op == "sv" || op == "sc" || op == "sa" || op == "sx" || op == "qcs" || op == "qns" || op == "qbs" || op == "qi") && !seg(m).segment_present(static_cast<int>(a[1]))) failed = true;
      else if (op == "qi" && !seg(m).segment_present(static_cast<int>(a[2]))) failed = true;
      else if (op == "R")
      {
        fresh(); turn = 0; R << 0;
#ifdef FEAT_RESET
        FEAT_RESET();
#endif
      }
      else if (op == "v") { double c[3] = { double(a[1]), double(a[2]), double(a[3]) }; R << idof(viennagrid::dereference_handle(*M[m], viennagrid::make_vertex(*M[m], mkpoint(c)))); }
      else if (op == "vi") { double c[3] = { double(a[2]), double(a[3]), double(a[4]) }; R << idof(viennagrid::dereference_handle(*M[m], viennagrid::make_vertex_with_id(*M[m], Vertex::id_type(a[1]), mkpoint(c)))); }
      else if (op == "vp") { bool ok; VertexHandle h = byid<0>(*M[m], a[1], ok); if (!ok) failed = true; else { double c[3] = { double(a[2]), double(a[3]), double(a[4]) }; viennagrid::point(*M[m], h) = mkpoint(c); } R << 0; }
      else if (op == "vu") { double c[3] = { double(a[2]), double(a[3]), double(a[4]) }; R << idof(viennagrid::dereference_handle(*M[m], a[1] == 0 ? viennagrid::make_unique_vertex(*M[m], mkpoint(c)) : viennagrid::make_unique_vertex(*M[m], mkpoint(c), double(a[1]) / 2.0))); }
      else if (op == "c") { std::vector<VertexHandle> vh; if (!vhandles(*M[m], a, 1, vh)) failed = true; else R << idof(viennagrid::dereference_handle(*M[m], make_cell_any(*M[m], vh))); }
      else if (op == "ci") { std::vector<VertexHandle> vh; if (!vhandles(*M[m], a, 2, vh)) failed = true; else R << idof(viennagrid::dereference_handle(*M[m], turn % 2 ? viennagrid::make_cell_with_id(*M[m], vh.begin(), vh.end(), Cell::id_type(a[1])) : viennagrid::make_element_with_id<CellTag>(*M[m], vh.begin(), vh.end(), Cell::id_type(a[1])))); }
      else if (op == "e") { std::vector<VertexHandle> vh; if (!vhandles(*M[m], a, 2, vh)) failed = true; else { MakeElem f(*M[m], vh); level(a[1], f); } }
      else if (op == "x") { Erase f(*M[m], a[2]); level(a[1], f); R << 0; }
      else if (op == "xm")
      {
        MView v = viennagrid::make_view(*M[m]);
        for (std::size_t i = 1; i + 1 < a.size(); i += 2) { Mark f(*M[m], v, a[i+1]); level(a[i], f); }
        if (!failed) viennagrid::erase_elements(*M[m], v);
        R << 0;
      }
      else if (op == "a") { int n = static_cast<int>(a[1]) & 1; if (n != m) { delete S[n]; S[n] = 0; } *M[n] = *M[m]; R << 0; }
      else if (op == "cc") { int n = static_cast<int>(a[1]) & 1; if (n == m) failed = true; else { delete S[n]; S[n] = 0; Mesh * t = new Mesh(*M[m]); delete M[n]; M[n] = t; } R << 0; }
      else if (op == "cl") { delete S[m]; S[m] = 0; viennagrid::clear(*M[m]); R << 0; }
      else if (op == "sm") { R << seg(m).make_segment().id(); }
      else if (op == "sn") { R << (turn % 3 == 0 ? seg(m).get_make_segment(name) : turn % 3 == 1 ? seg(m)(name) : seg(m)[name]).id(); }
      else if (op == "si") { R << (turn % 3 == 0 ? seg(m).get_make_segment(static_cast<int>(a[1])) : turn % 3 == 1 ? seg(m)(static_cast<int>(a[1])) : seg(m)[static_cast<int>(a[1])]).id(); }
      else if (op == "sr") { seg(m).get_segment(static_cast<int>(a[1])).set_name(name); R << 0; }
      else if (op == "sv") { double c[3] = { double(a[2]), double(a[3]), double(a[4]) }; R << idof(viennagrid::dereference_handle(*M[m], viennagrid::make_vertex(seg(m).get_segment(static_cast<int>(a[1])), mkpoint(c)))); }
      else if (op == "sc") { std::vector<VertexHandle> vh; if (!vhandles(*M[m], a, 2, vh)) failed = true; else R << idof(viennagrid::dereference_handle(*M[m], make_cell_any(seg(m).get_segment(static_cast<int>(a[1])), vh))); }
      else if (op == "sa") { SegAdd f(*M[m], seg(m).get_segment(static_cast<int>(a[1])), a[3]); level(a[2], f); R << 0; }
      else if (op == "sx") { SegErase f(*M[m], seg(m).get_segment(static_cast<int>(a[1])), a[3]); level(a[2], f); R << 0; }
      else if (op == "scl") { if (turn % 2) viennagrid::clear(seg(m)); else seg(m).clear(); R << 0; }
      else if (op == "qc") { mut = false; Cob<Mesh> f(*M[m], *M[m], a[3]); level2(a[1], a[2], f); }
      else if (op == "qcs") { mut = false; Cob<Segment> f(*M[m], seg(m).get_segment(static_cast<int>(a[1])), a[4]); level2(a[2], a[3], f); }
      else if (op == "qn") { mut = false; Ngb<Mesh> f(*M[m], *M[m], a[3]); level2(a[1], a[2], f); }
      else if (op == "qns") { mut = false; Ngb<Segment> f(*M[m], seg(m).get_segment(static_cast<int>(a[1])), a[4]); level2(a[2], a[3], f); }
      else if (op == "qb") { mut = false; Bnd<Mesh> f(*M[m], *M[m], a[2]); level(a[1], f); }
      else if (op == "qbs") { mut = false; Bnd<Segment> f(*M[m], seg(m).get_segment(static_cast<int>(a[1])), a[3]); level(a[2], f); }
      else if (op == "qi") { mut = false; Ifc f(*M[m], seg(m).get_segment(static_cast<int>(a[1])), seg(m).get_segment(static_cast<int>(a[2])), a[4]); level(a[3], f); }
      else if (op == "QC") { mut = false; R << dumpcob(m); }
      else if (op == "QN") { mut = false; R << dumpngb(m); }
      else if (op == "QB") { mut = false; R << dumpbnd(m); }
      else if (op == "QI") { mut = false; R << dumpifc(m); }
      else if (op == "QM") { mut = false; R << dumpmem(m); }
      else if (op == "QL") { mut = false; localv(*M[m]); }
      else if (op == "P") { R << 0; }
      else if (op == "lb") { lattice(m, a); R << 0; }
      else if (feature(op, a, name, m, mut)) {}
      else { std::cerr << "unknown op " << op << std::endl; return 3; }
    }
    catch (std::exception const & ex) { exc = 1; R.str(""); R << 0; }
    out << "{\"op\":" << jstr(op) << ",\"a\":" << jlist(a) << ",\"n\":" << jstr(name) << ",\"x\":" << exc << ",\"f\":" << (failed ? 1 : 0);
    std::string r = R.str();
    out << ",\"r\":" << (r.empty() || failed ? std::string("0") : r);
    if (mut) out << ",\"s\":" << state();
    out << "}\n";
  }
  out << "{\"op\":\"end\",\"a\":[],\"n\":\"\",\"x\":0,\"f\":0,\"r\":0}\n";
  out.flush();
  return 0;
}

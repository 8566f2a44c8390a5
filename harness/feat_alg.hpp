// Derived-data algorithms: hull extraction (hb, hs), seed points (hp), quantity transfer (qt), transforms (gt), accessors and fields (d*).
#include <map>
#include <deque>
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"

struct Comma { bool first; Comma() : first(true) {} char const * operator()() { if (first) { first = false; return ""; } return ","; } };

// ---- hull extraction ----------------------------------------------------------------
template<int K> struct hull_ { typedef void type; };
#if CT == 2 || CT == 3
template<> struct hull_<1> { typedef viennagrid::line_2d_mesh type; };
#elif CT == 6 || CT == 8
template<> struct hull_<1> { typedef viennagrid::line_3d_mesh type; };
#elif CT == 4
template<> struct hull_<1> { typedef viennagrid::line_3d_mesh type; };
template<> struct hull_<2> { typedef viennagrid::triangular_3d_mesh type; };
#elif CT == 5
template<> struct hull_<1> { typedef viennagrid::line_3d_mesh type; };
template<> struct hull_<2> { typedef viennagrid::quadrilateral_3d_mesh type; };
#endif
template<int K, bool ok> struct Hull { static void go(Mesh const &, Segmentation const *, bool) { failed = true; } };
template<int K> struct Hull<K, true>
{
  typedef typename hull_<K>::type H;
  typedef typename viennagrid::result_of::segmentation<H>::type HS;
  typedef typename LT<K>::type Tag;
  template<typename C> static void verts(C const & c)
  {
    typedef typename viennagrid::result_of::const_vertex_range<C>::type Range; typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(c); std::vector<long> ids;
    for (It it = r.begin(); it != r.end(); ++it) ids.push_back(idof(*it));
    R << jlist(ids);
  }
  template<typename C> static void cells(C const & c)
  {
    typedef typename viennagrid::result_of::const_cell_range<C>::type Range; typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(c); std::vector<long> ids;
    for (It it = r.begin(); it != r.end(); ++it) ids.push_back(idof(*it));
    R << jlist(ids);
  }
  static H *& hullp() { static H * h = 0; return h; }
  static HS *& hsp() { static HS * h = 0; return h; }
  static void run(Mesh const & m, Segmentation const * sg, bool, vh::bool_<false>)
  { if (sg) viennagrid::extract_boundary<Tag>(m, *sg, *hullp(), *hsp()); else viennagrid::extract_boundary<Tag>(m, *hullp()); }
  static void run(Mesh const & m, Segmentation const * sg, bool explicit_tag, vh::bool_<true>)
  {
    if (explicit_tag) run(m, sg, true, vh::bool_<false>());
    else if (sg) viennagrid::extract_boundary(m, *sg, *hullp(), *hsp()); else viennagrid::extract_boundary(m, *hullp());
  }
  static void go(Mesh const & m, Segmentation const * sg, bool explicit_tag)
  {
    H *& hull = hullp(); HS *& hs = hsp();        // kept from call to call: an extraction replaces whatever was there
    if (!hull) { hull = new H(); hs = new HS(*hull); }
    if (!sg) hs->clear();
    run(m, sg, explicit_tag, vh::bool_<(K == D-1)>());
    typedef typename viennagrid::result_of::const_vertex_range<H>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI;
    typedef typename viennagrid::result_of::const_cell_range<H>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
    Comma c1, c2, c3;
    VR vr(*hull); CR cr(*hull);
    R << "{\"V\":[";
    for (VI it = vr.begin(); it != vr.end(); ++it)
    {
      R << c1() << "{\"i\":" << idof(*it) << ",\"p\":[";
      for (int i = 0; i < GD; ++i) R << (i ? "," : "") << toint(viennagrid::point(*it)[i]);
      R << "]}";
    }
    R << "],\"C\":[";
    for (CI it = cr.begin(); it != cr.end(); ++it) { R << c2() << "{\"i\":" << idof(*it) << ",\"v\":"; verts(*it); R << "}"; }
    R << "],\"S\":[";
    HS const & chs = *hs;
    for (typename HS::const_iterator s = chs.begin(); s != chs.end(); ++s)
    { R << c3() << "{\"i\":" << s->id() << ",\"v\":"; verts(*s); R << ",\"c\":"; cells(*s); R << "}"; }
    R << "]}";
  }
};
struct HullAt
{
  Mesh const & m; Segmentation const * sg; bool e; HullAt(Mesh const & m_, Segmentation const * s_, bool e_) : m(m_), sg(s_), e(e_) {}
  template<int K> void call() { Hull<K, (K > 0 && K < D)>::go(m, sg, e); }
};
template<typename P> static void seedpoint(P const & p)
{
  R << "[";
  for (int i = 0; i < GD; ++i) R << (i ? "," : "") << toint(p[i], double(NV));
  R << "]";
}

// ---- quantity transfer ------------------------------------------------------------------
static long valmod = 100;
template<typename E> struct SrcAcc { typedef long value_type; long operator()(E const & e) const { return 7 * (idof(e) % valmod) + 3; } };
static std::deque<std::vector<long> > captured;
struct Capture { long operator()(std::vector<long> const & v) const { captured.push_back(v); return static_cast<long>(captured.size()) - 1; } };
struct Setter
{
  std::vector<std::pair<long, long> > calls;
  template<typename E> void operator()(E const & e, long w) { calls.push_back(std::make_pair(idof(e), w)); }
};
struct Mod { long m, r; Mod(long m_, long r_) : m(m_), r(r_) {} template<typename E> bool operator()(E const & e) const { return idof(e) % m != r; } };
template<int A, int B, typename HostT, bool ok> struct Transfer_ { static void go(HostT const &, Mod, Mod, bool) { failed = true; } };
template<int A, int B, typename HostT> struct Transfer_<A, B, HostT, true>
{
  static void go(HostT const & h, Mod fs, Mod fd, bool types)
  {
    typedef typename LT<A>::type TA; typedef typename LT<B>::type TB;
    typedef typename viennagrid::result_of::element<Mesh, TA>::type EA; typedef typename viennagrid::result_of::element<Mesh, TB>::type EB;
    captured.clear(); Setter set;
    if (types) viennagrid::quantity_transfer<EA, EB>(h, SrcAcc<EA>(), set, Capture(), fs, fd);
    else       viennagrid::quantity_transfer<TA, TB>(h, SrcAcc<EA>(), set, Capture(), fs, fd);
    Comma c; R << "[";
    for (std::size_t i = 0; i < set.calls.size(); ++i) R << c() << "[" << set.calls[i].first << "," << jlist(captured[set.calls[i].second]) << "]";
    R << "]";
  }
};
template<typename HostT> void transfer(HostT const & h, long a, long b, Mod fs, Mod fd, bool t)
{
#define TR(A,B) if (a == A && b == B) { Transfer_<A,B,HostT,(A <= D && B <= D)>::go(h, fs, fd, t); return; }
  TR(0,1) TR(0,2) TR(0,3) TR(1,0) TR(1,2) TR(1,3) TR(2,0) TR(2,1) TR(2,3) TR(3,0) TR(3,1) TR(3,2)
#undef TR
  failed = true;
}

// ---- transforms ------------------------------------------------------------------------------
struct Rotate { Point operator()(Point const & p) const { Point q = p; for (int i = 0; i < GD; ++i) q[i] = p[(i + 1) % GD] + 10 * i; return q; } };
typedef std::map<Vertex::id_type, Point> PMap;

// ---- accessors and fields -------------------------------------------------------------------------
// container kinds 0 vector, 1 deque, 2 map; ways 0 accessor, 1 field, 2 accessor of a const container, 3 field of a const container,
// 4 dynamic accessor, 5 dynamic field, 6 dynamic accessor (const), 7 dynamic field (const), 8 default-constructed then assigned accessor, 9 same for field
template<int K> struct Elt { typedef typename viennagrid::result_of::element<Mesh, typename LT<K>::type>::type type; };
template<int K> struct Store
{
  typedef typename Elt<K>::type E;
  typedef std::map<typename viennagrid::result_of::id<E>::type, long> MapT;
  std::vector<long> v; std::deque<long> d; MapT m;
  void clear() { v.clear(); d.clear(); m.clear(); }
};
template<int K> struct stores { static Store<K> s[2]; };
template<int K> Store<K> stores<K>::s[2];
static const long DEF = 77;
template<typename A, typename E> void use_mut(A & a, E const & e, std::string const & op, long val)
{
  if (op == "dw") { a(e) = val; R << 0; }
  else if (op == "df") { long * p = a.find(e); if (p) R << "[" << *p << "]"; else R << "[]"; }
  else if (op == "da") { try { long v_ = a.at(e); R << "[" << v_ << "]"; } catch (std::out_of_range const &) { R << "[]"; } }
  else failed = true;
}
template<typename A, typename E> void use_const(A const & a, E const & e, std::string const & op, bool field)
{
  if (op == "df") { long const * p = a.find(e); if (p) R << "[" << *p << "]"; else R << "[]"; }
  else if (op == "da") { try { long v_ = a.at(e); R << "[" << v_ << "]"; } catch (std::out_of_range const &) { R << "[]"; } }
  else if (op == "dr") { if (!field && !a.find(e)) failed = true; else R << "[" << a(e) << "]"; }
  else failed = true;
}
template<typename C, typename E> void access(C & c, E const & e, long way, std::string const & op, long val)
{
  typedef typename viennagrid::result_of::accessor<C, E>::type A; typedef typename viennagrid::result_of::accessor<C const, E>::type CA;
  typedef typename viennagrid::result_of::field<C, E>::type F; typedef typename viennagrid::result_of::field<C const, E>::type CF;
  C const & cc = c;
  bool cst = op == "dr";
  switch (way)
  {
    case 0: { A a = viennagrid::make_accessor<E>(c); if (!a.is_valid()) throw std::runtime_error("invalid"); if (cst) use_const(a, e, op, false); else use_mut(a, e, op, val); break; }
    case 1: { F f(c, DEF); if (!f.is_valid()) throw std::runtime_error("invalid"); if (cst) use_const(f, e, op, true); else use_mut(f, e, op, val); break; }
    case 2: { CA a = viennagrid::make_accessor<E>(cc); if (!a.is_valid()) throw std::runtime_error("invalid"); use_const(a, e, op, false); break; }
    case 3: { CF f(cc, DEF); if (!f.is_valid()) throw std::runtime_error("invalid"); use_const(f, e, op, true); break; }
    case 4: { viennagrid::dynamic_accessor_wrapper<A> w((A(c))); viennagrid::base_dynamic_accessor<long, E> & b = w; if (cst) { viennagrid::base_dynamic_accessor<long, E> const & k = w; use_const(k, e, op, false); } else use_mut(b, e, op, val); break; }
    case 5: { viennagrid::dynamic_field_wrapper<F> w(F(c, DEF)); viennagrid::base_dynamic_field<long, E> & b = w; if (cst) { viennagrid::base_dynamic_field<long, E> const & k = w; use_const(k, e, op, true); } else use_mut(b, e, op, val); break; }
    case 6: { viennagrid::dynamic_accessor_wrapper<A const> w((A(c))); viennagrid::base_dynamic_accessor<const long, E> const & k = w; use_const(k, e, op, false); break; }
    case 7: { viennagrid::dynamic_field_wrapper<F const> w(F(c, DEF)); viennagrid::base_dynamic_field<const long, E> const & k = w; use_const(k, e, op, true); break; }
    case 8: { A a; if (a.is_valid()) throw std::runtime_error("valid"); A b(c); a = b; if (cst) use_const(a, e, op, false); else use_mut(a, e, op, val); break; }
    case 9: { F a; if (a.is_valid()) throw std::runtime_error("valid"); F b(c, DEF); a = b; if (cst) use_const(a, e, op, true); else use_mut(a, e, op, val); break; }
    default: failed = true;
  }
}
struct DataOp
{
  int m; long kind, way, id, val; std::string op;
  DataOp(int m_, long k, long w, long i, long v, std::string const & o) : m(m_), kind(k), way(w), id(i), val(v), op(o) {}
  template<int K> void call()
  {
    bool ok; typename viennagrid::result_of::handle<Mesh, typename LT<K>::type>::type h = byid<K>(*M[m], id, ok);
    if (!ok) { failed = true; return; }
    typename Elt<K>::type const & e = viennagrid::dereference_handle(*M[m], h);
    Store<K> & s = stores<K>::s[m];
    if (kind == 0) access(s.v, e, way, op, val); else if (kind == 1) access(s.d, e, way, op, val); else access(s.m, e, way, op, val);
  }
};
struct DataDump      // every store, every element, through find of an accessor
{
  int m; Comma c; DataDump(int m_) : m(m_) {}
  template<typename C, typename E> void one(int K, int kind, C & s, E const & e)
  {
    typename viennagrid::result_of::accessor<C, E>::type a(s);
    long * p = a.find(e);
    if (p) R << c() << "[" << K << "," << kind << "," << idof(e) << "," << *p << "]";
  }
  template<int K> void call()
  {
    typedef typename viennagrid::result_of::element_range<Mesh, typename LT<K>::type>::type Range; typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(*M[m]); Store<K> & s = stores<K>::s[m];
    for (It it = r.begin(); it != r.end(); ++it) { one(K, 0, s.v, *it); one(K, 1, s.d, *it); one(K, 2, s.m, *it); }
  }
};
#define FEAT_RESET() do { DataClear f_; allk<D>::go(f_); } while (0)
struct DataClear { template<int K> void call() { stores<K>::s[0].clear(); stores<K>::s[1].clear(); } };

static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool & mut)
{
  Mesh const & cm = *M[m];
  if (op == "hb") { mut = false; HullAt f(cm, 0, a[2] != 0); level(a[1], f); return true; }
  if (op == "hs") { mut = false; seg(m); HullAt f(cm, S[m], a[2] != 0); level(a[1], f); return true; }
  if (op == "hp")
  {
    mut = false;
    Segmentation const & sg = seg(m);
    std::vector<Point> ps; std::vector<std::pair<Point, int> > ss;
    viennagrid::extract_seed_points(cm, ps);
    viennagrid::extract_seed_points(cm, sg, ss);
    Comma c, d;
    R << "{\"m\":["; for (std::size_t i = 0; i < ps.size(); ++i) { R << c(); seedpoint(ps[i]); }
    R << "],\"s\":["; for (std::size_t i = 0; i < ss.size(); ++i) { R << d() << "["; seedpoint(ss[i].first); R << "," << ss[i].second << "]"; }
    R << "]}";
    return true;
  }
  if (op == "qt")     // slot segment(-1: mesh) from to mod-src rest-src mod-dst rest-dst by-type
  {
    mut = false;
    valmod = a.size() > 9 ? a[9] : 100;
    Mod fs(a[4], a[5]), fd(a[6], a[7]);
    if (a[1] < 0) transfer(cm, a[2], a[3], fs, fd, a[8] != 0);
    else if (!seg(m).segment_present(static_cast<int>(a[1]))) failed = true;
    else transfer(static_cast<Segmentation const &>(seg(m)).get_segment(static_cast<int>(a[1])), a[2], a[3], fs, fd, a[8] != 0);
    return true;
  }
  if (op == "gt")     // slot kind seg x0..x11
  {
    double mat[9], c[3] = { double(a[3]), double(a[4]), double(a[5]) };
    for (int i = 0; i < 9; ++i) mat[i] = double(a[6 + i]);
    Point p = mkpoint(c);
    R << 0;
    if (a[1] == 0) viennagrid::scale(*M[m], mat[0]);
    else if (a[1] == 1) viennagrid::scale(*M[m], mat[0], p);
    else if (a[1] == 2) viennagrid::affine_transform(*M[m], mat, p);
    else if (a[1] == 3) viennagrid::geometric_transform(*M[m], Rotate());
    else if (a[1] == 4) viennagrid::geometric_transform(*M[m], viennagrid::affine_transform_functor<Mesh>(mat));
    else if (a[1] == 5)    // points held elsewhere: only those move
    {
      PMap pm; viennagrid::result_of::accessor<PMap, Vertex>::type acc(pm);
      typedef viennagrid::result_of::vertex_range<Mesh>::type VR; typedef viennagrid::result_of::iterator<VR>::type VI;
      VR vr(*M[m]);
      for (VI it = vr.begin(); it != vr.end(); ++it) { Point p5 = viennagrid::point(*it); for (int i = 0; i < GD; ++i) p5[i] += 100 * (i + 1); acc(*it) = p5; }
      viennagrid::geometric_transform(*M[m], viennagrid::scale_functor<Mesh>(mat[0], p), acc);
      R.str(""); Comma k; R << "[";
      for (VI it = vr.begin(); it != vr.end(); ++it)
      {
        R << k() << "{\"i\":" << idof(*it) << ",\"p\":["; Point q = pm[it->id()];
        for (int i = 0; i < GD; ++i) R << (i ? "," : "") << toint(q[i]);
        R << "]}";
      }
      R << "]";
    }
    else failed = true;
    return true;
  }
  if (op == "dc") { mut = false; DataClear f; allk<D>::go(f); R << 0; return true; }
  if (op == "dq") { mut = false; R << "["; DataDump f(m); allk<D>::go(f); R << "]"; return true; }
  if (op[0] == 'd')   // slot level kind way id value
  { mut = false; DataOp f(m, a[2], a[3], a[4], a.size() > 5 ? a[5] : 0, op); level(a[1], f); return true; }
  return false;
}

// Geometric queries: measures (gm, gp), distances (gd, gl, gs), point location (gi).  Reals are logged as round(1000 x).
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/angle.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#include "viennagrid/algorithm/inclusion.hpp"
static long fx(double x)
{
  double y = x * 1000.0;
  if (!(y == y)) return 999999937L;
  if (y > 8e8 || y < -8e8) return 999999929L;
  return static_cast<long>(std::floor(y + 0.5));
}
template<typename P> static std::string fxp(P const & p)
{
  std::ostringstream o; o << "[";
  for (int i = 0; i < GD; ++i) { if (i) o << ","; o << fx(p[i]); }
  o << "]"; return o.str();
}
struct Sep { bool first; Sep() : first(true) {} std::string operator()() { if (first) { first = false; return ""; } return ","; } };

template<int K> struct cc_  // circumcenter where the library offers it
{ template<typename E> static std::string get(E const & e) { return fxp(viennagrid::circumcenter(e)); } };
template<> struct cc_<0> { template<typename E> static std::string get(E const &) { return "[]"; } };
template<int K, int G> struct nv_ { template<typename E> static std::string get(E const &) { return "[]"; } };
template<> struct nv_<1,2> { template<typename E> static std::string get(E const & e) { return fxp(viennagrid::normal_vector(e)); } };
template<> struct nv_<2,3> { template<typename E> static std::string get(E const & e) { return fxp(viennagrid::normal_vector(e)); } };
template<int K> struct surf_ { template<typename E> static long get(E const & e) { return fx(viennagrid::surface(e)); } };
template<> struct surf_<0> { template<typename E> static long get(E const &) { return 0; } };

// the same through an accessor that doubles the points, scaled back (exact in binary floating point)
typedef std::vector<Point> Doubled;
typedef viennagrid::result_of::accessor<const Doubled, Vertex>::type DAcc;
static Doubled doubled(Mesh const & m)
{
  Doubled d; typedef viennagrid::result_of::const_vertex_range<Mesh>::type VR; VR vr(m);
  for (viennagrid::result_of::iterator<VR>::type v = vr.begin(); v != vr.end(); ++v)
  { std::size_t i = static_cast<std::size_t>(idof(*v)); if (d.size() <= i) d.resize(i + 1); d[i] = viennagrid::point(*v); d[i] *= 2.0; }
  return d;
}
static Point half(Point p) { p /= 2.0; return p; }
template<int K> struct alt_ { template<typename E> static std::string get(DAcc const & a, E const & e)
{ std::ostringstream o; o << "[" << fx(viennagrid::volume(a, e) / double(1 << K)) << "," << fx(viennagrid::surface(a, e) / double(1 << (K - 1))) << "," << fxp(half(viennagrid::centroid(a, e))) << "," << fxp(half(viennagrid::circumcenter(a, e))) << "]"; return o.str(); } };
template<> struct alt_<0> { template<typename E> static std::string get(DAcc const & a, E const & e) { std::ostringstream o; o << "[" << fx(viennagrid::volume(a, e)) << ",0," << fxp(half(viennagrid::centroid(a, e))) << ",[]]"; return o.str(); } };
struct Measures
{
  Mesh const & m; std::ostringstream & o; Sep sep; Measures(Mesh const & m_, std::ostringstream & o_) : m(m_), o(o_) {}
  template<int K> void call()
  {
    typedef typename viennagrid::result_of::const_element_range<Mesh, typename LT<K>::type>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m); Doubled d = doubled(m);
    for (It it = r.begin(); it != r.end(); ++it)
      o << sep() << "{\"alt\":" << alt_<K>::get(DAcc(d), *it) << ",\"k\":" << K << ",\"i\":" << idof(*it) << ",\"vol\":" << fx(viennagrid::volume(*it)) << ",\"surf\":" << surf_<K>::get(*it)
        << ",\"cen\":" << fxp(viennagrid::centroid(*it)) << ",\"cc\":" << cc_<K>::get(*it) << ",\"nv\":" << nv_<K,GD>::get(*it) << "}";
  }
};
template<int G> struct lin_   // purely vectorial functions per dimension
{ static void go(std::ostringstream & o, Point const *) { o << ",\"cross\":[],\"s3\":0,\"ss3\":0,\"s4\":0,\"ss4\":0,\"det\":0,\"dih\":0,\"dia\":0,\"sol\":[]"; } };
template<> struct lin_<2>
{
  static void go(std::ostringstream & o, Point const * p)
  {
    o << ",\"cross\":[],\"s3\":" << fx(viennagrid::spanned_volume(p[0], p[1], p[2])) << ",\"ss3\":" << fx(viennagrid::signed_spanned_volume(p[0], p[1], p[2]))
      << ",\"s4\":0,\"ss4\":0,\"det\":" << fx(viennagrid::determinant(p[0], p[1])) << ",\"dih\":0,\"dia\":0,\"sol\":[]";
  }
};
#if CT == 4 || CT == 5 || CT == 6 || CT == 7 || CT == 8
template<> struct lin_<3>
{
  static void go(std::ostringstream & o, Point const * p)
  {
    Point a = p[1] - p[0], b = p[2] - p[0], c = p[3] - p[0], d = a + b + c, z = a - a;
    double dih = viennagrid::dihedral_angle(p[0], p[1], p[2], p[0], p[1], p[3]);
    o << ",\"cross\":" << fxp(viennagrid::cross_prod(p[0], p[1]))
      << ",\"s3\":" << fx(viennagrid::spanned_volume(p[0], p[1], p[2])) << ",\"ss3\":" << fx(viennagrid::signed_spanned_volume(p[0], p[1], p[2]))
      << ",\"s4\":" << fx(viennagrid::spanned_volume(p[0], p[1], p[2], p[3])) << ",\"ss4\":" << fx(viennagrid::signed_spanned_volume(p[0], p[1], p[2], p[3]))
      << ",\"det\":" << fx(viennagrid::determinant(p[0], p[1], p[2])) << ",\"dih\":" << fx(std::cos(dih)) << ",\"dia\":" << fx(dih)
      << ",\"sol\":[" << fx(viennagrid::solid_angle(p[1], p[2], p[3], p[0])) << "," << fx(viennagrid::solid_angle(a, b, d)) << "," << fx(viennagrid::solid_angle(b, c, d))
      << "," << fx(viennagrid::solid_angle(c, a, d)) << "," << fx(viennagrid::solid_angle(c, Point(a * 2.0), b));
    for (int s = 0; s < 4; ++s)
      o << "," << fx(viennagrid::solid_angle(a, (s & 1) ? Point(z - b) : b, (s & 2) ? Point(z - c) : c));
    o << "]";
  }
};
#endif

// ---- distances ------------------------------------------------------------------
template<typename P> std::string pr(std::pair<P, P> const & q) { return fxp(q.first) + "," + fxp(q.second); }
struct PointDist
{
  Mesh const & m; Point p; std::ostringstream & o; Sep sep; PointDist(Mesh const & m_, Point const & p_, std::ostringstream & o_) : m(m_), p(p_), o(o_) {}
  template<int K> void call() { go<K>(vh::bool_<(K > 0)>()); }
  template<int K> void go(vh::bool_<false>) { each<K>(); }
  template<int K> void go(vh::bool_<true>) { each<K>(); }
  template<int K> void each()
  {
    typedef typename viennagrid::result_of::const_element_range<Mesh, typename LT<K>::type>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    for (It it = r.begin(); it != r.end(); ++it)
      o << sep() << "[" << K << "," << idof(*it) << "," << fx(viennagrid::distance(p, *it)) << "," << fx(viennagrid::distance(*it, p)) << ","
        << pr(viennagrid::closest_points(viennagrid::default_point_accessor(m), p, *it)) << "]";
  }
};
template<int DD> struct segseg_ { static void go(Segmentation const &, std::ostringstream &) {} };
#if CT == 2 || CT == 3 || CT == 6 || CT == 8
template<> struct segseg_<2>
{
  static void go(Segmentation const & sg, std::ostringstream & o)
  {
    Sep sep;
    for (Segmentation::const_iterator s = sg.begin(); s != sg.end(); ++s)
      for (Segmentation::const_iterator t = sg.begin(); t != sg.end(); ++t)
        if (s->id() != t->id())
          o << sep() << "[" << s->id() << "," << t->id() << "," << fx(viennagrid::boundary_distance(*s, *t)) << "," << pr(viennagrid::closest_points_on_boundary(*s, *t)) << "]";
  }
};
#endif
#if CT == 2 || CT == 4 || CT == 6
template<int K, bool simplex> struct ins_ { template<typename E> static int get(E const &, Point const &) { return -1; } };
template<int K> struct ins_<K, true> { template<typename E> static int get(E const & e, Point const & p) { return (viennagrid::is_inside(e, p, 1e-7) ? 1 : 0) + (viennagrid::is_inside(e, p) ? 2 : 0); } };
struct Inside
{
  Mesh const & m; Point p; std::ostringstream & o; Sep sep; Inside(Mesh const & m_, Point const & p_, std::ostringstream & o_) : m(m_), p(p_), o(o_) {}
  template<int K> void call()
  {
    typedef typename viennagrid::result_of::const_element_range<Mesh, typename LT<K>::type>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    for (It it = r.begin(); K >= 2 && it != r.end(); ++it)
      o << sep() << "[" << K << "," << idof(*it) << "," << ins_<K, (K >= 2)>::get(*it, p) << "]";
  }
};
#endif

static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool & mut)
{
  std::ostringstream o;
  if (op == "gm")
  {
    mut = false;
    Mesh const & me = *M[m];
    o << "{\"e\":["; { Measures f(me, o); allk<D>::go(f); }
    std::pair<Point, Point> bb = viennagrid::bounding_box(me);
    o << "],\"vol\":" << fx(viennagrid::volume(me)) << ",\"surf\":" << fx(viennagrid::surface(me)) << ",\"cen\":" << fxp(viennagrid::centroid(me))
      << ",\"lo\":" << fxp(bb.first) << ",\"hi\":" << fxp(bb.second) << ",\"size\":" << fx(viennagrid::mesh_size(me)) << ",\"s\":[";
    Sep sep;
    if (S[m]) for (Segmentation::const_iterator s = static_cast<Segmentation const &>(*S[m]).begin(); s != static_cast<Segmentation const &>(*S[m]).end(); ++s)
      o << sep() << "{\"i\":" << s->id() << ",\"vol\":" << fx(viennagrid::volume(*s)) << ",\"surf\":" << fx(viennagrid::surface(*s)) << ",\"cen\":" << fxp(viennagrid::centroid(*s)) << "}";
    Doubled d = doubled(me); Segmentation const & sg = seg(m);
    o << "],\"mc\":[" << fxp(half(viennagrid::centroid(me, DAcc(d)))) << "],\"sc\":[";
    Sep sep2; for (Segmentation::const_iterator s = sg.begin(); s != sg.end(); ++s) o << sep2() << "[" << s->id() << "," << fxp(half(viennagrid::centroid(*s, DAcc(d)))) << "]";
    o << "]}";
    R << o.str(); return true;
  }
  if (op == "gp")
  {
    mut = false;
    Point p[4];
    for (int i = 0; i < 4; ++i) { double c[3] = { double(a[1+3*i]), double(a[2+3*i]), double(a[3+3*i]) }; p[i] = mkpoint(c); }
    double an = viennagrid::angle(p[0], p[1]), an3 = viennagrid::angle(p[0], p[1], p[2]);
    std::vector<Point> vs; vs.push_back(p[0]); vs.push_back(p[1]); vs.push_back(p[2]);
    std::size_t rk = viennagrid::orthogonalize(vs.begin(), vs.end(), 1e-9);
    o << "{\"n1\":" << fx(viennagrid::norm_1(p[0])) << ",\"n2\":" << fx(viennagrid::norm_2(p[0])) << ",\"ni\":" << fx(viennagrid::norm_inf(p[0])) << ",\"n\":" << fx(viennagrid::norm(p[0]))
      << ",\"ip\":" << fx(viennagrid::inner_prod(p[0], p[1])) << ",\"s2\":" << fx(viennagrid::spanned_volume(p[0], p[1])) << ",\"ss2\":" << fx(viennagrid::signed_spanned_volume(p[0], p[1]))
      << ",\"d\":" << fx(viennagrid::distance(p[0], p[1]))
      << ",\"cos\":" << fx(std::cos(an)) << ",\"ang\":" << fx(an) << ",\"cos3\":" << fx(std::cos(an3)) << ",\"ang3\":" << fx(an3) << ",\"rk\":" << rk << ",\"ort\":[";
    Sep sep;
    for (std::size_t i = 0; i < rk; ++i) o << sep() << fxp(vs[i]);
    o << "]";
    lin_<GD>::go(o, p);
    o << "}";
    R << o.str(); return true;
  }
  if (op == "gd")      // distances from the point a[1..3]/2
  {
    mut = false;
    double c[3] = { a[1] / 2.0, a[2] / 2.0, a[3] / 2.0 };
    Point p = mkpoint(c);
    Mesh const & me = *M[m];
    o << "{\"e\":["; { PointDist f(me, p, o); allk<D>::go(f); }
    o << "],\"m\":[" << fx(viennagrid::boundary_distance(p, me)) << "," << fx(viennagrid::boundary_distance(me, p)) << "," << pr(viennagrid::closest_points_on_boundary(viennagrid::default_point_accessor(me), p, me)) << "],\"s\":[";
    Sep sep;
    if (S[m]) for (Segmentation::const_iterator s = static_cast<Segmentation const &>(*S[m]).begin(); s != static_cast<Segmentation const &>(*S[m]).end(); ++s)
      o << sep() << "[" << s->id() << "," << fx(viennagrid::boundary_distance(p, *s)) << "," << fx(viennagrid::boundary_distance(*s, p)) << "," << pr(viennagrid::closest_points_on_boundary(viennagrid::default_point_accessor(me), p, *s)) << "]";
    o << "]}";
    R << o.str(); return true;
  }
  if (op == "gl" || op == "gs")      // line against line (one against all / all pairs), line against segments, segments against segments
  {
    mut = false;
    Mesh const & me = *M[m];
    typedef viennagrid::result_of::const_line_range<Mesh>::type LR; typedef viennagrid::result_of::iterator<LR>::type LI;
    LR lr(me);
    Sep sep;
    std::ostringstream sg, vl;
    Sep sep2, sep3;
    o << "{\"l\":[";
    for (LI i = lr.begin(); i != lr.end(); ++i)
    {
      if (op == "gl" && idof(*i) != a[1]) continue;
      for (LI j = lr.begin(); j != lr.end(); ++j)
        if (op == "gl" || idof(*i) <= idof(*j))
          o << sep() << "[" << idof(*i) << "," << idof(*j) << "," << fx(viennagrid::distance(*i, *j)) << "," << pr(viennagrid::closest_points(viennagrid::default_point_accessor(me), *i, *j)) << "]";
      if (op == "gl")
      {
        if (S[m]) for (Segmentation::const_iterator s = static_cast<Segmentation const &>(*S[m]).begin(); s != static_cast<Segmentation const &>(*S[m]).end(); ++s)
          sg << sep2() << "[" << s->id() << "," << fx(viennagrid::distance(*i, *s)) << "," << fx(viennagrid::distance(*s, *i)) << "]";
        typedef viennagrid::result_of::const_vertex_range<Mesh>::type VR; typedef viennagrid::result_of::iterator<VR>::type VI;
        VR vr(me);
        for (VI v = vr.begin(); v != vr.end(); ++v)
          vl << sep3() << "[" << idof(*v) << "," << pr(viennagrid::closest_points(viennagrid::default_point_accessor(me), *v, *i)) << "," << pr(viennagrid::closest_points(*i, *v)) << "]";
      }
    }
    o << "],\"s\":[" << sg.str() << "],\"v\":[" << vl.str() << "],\"ss\":[";
    if (op == "gs" && S[m]) segseg_<D>::go(*S[m], o);
    o << "]}";
    R << o.str(); return true;
  }
#if CT == 2 || CT == 4 || CT == 6
  if (op == "gi")
  {
    mut = false;
    double c[3] = { a[1] / 2.0, a[2] / 2.0, a[3] / 2.0 };
    Point p = mkpoint(c);
    o << "["; { Inside f(*M[m], p, o); allk<D>::go(f); }
    o << "]";
    R << o.str(); return true;
  }
#endif
  return false;
}

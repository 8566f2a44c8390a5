// Points in other coordinate systems (cs).  Locations are logged as round(1000 x) of their Cartesian coordinates.
#include "viennagrid/point.hpp"
#include "viennagrid/algorithm/norm.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
#include "viennagrid/algorithm/angle.hpp"
static long fx(double x)
{
  double y = x * 1000.0;
  if (!(y == y)) return 999999937L;
  if (y > 8e8 || y < -8e8) return 999999929L;
  return static_cast<long>(std::floor(y + 0.5));
}
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<2> > Car2;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<3> > Car3;
typedef viennagrid::spatial_point<double, viennagrid::polar_cs> Pol;
typedef viennagrid::spatial_point<double, viennagrid::spherical_cs> Sph;
typedef viennagrid::spatial_point<double, viennagrid::cylindrical_cs> Cyl;
template<typename P> static std::string raw(P const & p)
{
  std::ostringstream o; o << "[";
  for (int i = 0; i < P::dim; ++i) o << (i ? "," : "") << fx(p[i]);
  o << "]"; return o.str();
}
template<typename P> static std::string loc(P const & p) { return raw(viennagrid::to_cartesian(p)); }
template<typename P, typename C, int DIM> struct more      // 3d
{
  static void go(std::ostringstream & o, P const * p, C const * c)
  {
    o << ",\"x\":[" << loc(viennagrid::cross_prod(p[0], p[1])) << "," << loc(viennagrid::cross_prod(p[0], c[1])) << "," << loc(viennagrid::cross_prod(c[0], p[1])) << "]"
      << ",\"t\":[" << fx(viennagrid::signed_spanned_volume(p[0], p[1], p[2], p[3])) << "," << fx(viennagrid::signed_spanned_volume(c[0], p[1], c[2], p[3])) << "," << fx(viennagrid::signed_spanned_volume(p[0], c[1], c[2], p[3]))
      << "," << fx(viennagrid::signed_spanned_volume(p[0], p[1], p[2], c[3])) << "]"
      << ",\"ta\":[" << fx(viennagrid::spanned_volume(p[0], p[1], p[2], p[3])) << "," << fx(viennagrid::spanned_volume(c[0], c[1], p[2], c[3])) << "]";
    Sph s(p[0]); Cyl y(p[0]); Sph sy(y); Cyl ys(s);
    Sph sa; sa = y; Cyl ya; ya = s;
    o << ",\"cv\":[" << loc(s) << "," << loc(y) << "," << loc(sy) << "," << loc(ys) << "," << loc(sa) << "," << loc(ya) << "]";
  }
};
template<typename P, typename C> struct more<P, C, 2>
{
  static void go(std::ostringstream & o, P const * p, C const *)
  {
    P s(p[0]); P t; t = p[0];
    o << ",\"x\":[],\"t\":[],\"ta\":[],\"cv\":[" << loc(s) << "," << loc(t) << "]";
  }
};
template<typename P, typename C> static std::string system(C const * c, double f)
{
  std::ostringstream o;
  P p[4]; for (int i = 0; i < 4; ++i) { if (i % 2) p[i] = P(c[i]); else p[i] = c[i]; }
  C c1(p[0]), c2; c2 = p[0];
  P ia(p[0]), is(p[0]), im(p[0]), id(p[0]); ia += p[1]; is -= p[1]; im *= f; id /= f;
  P ch(p[0]); ((ch += p[1]) -= p[2]) *= f;
  P se(p[0]); se += se;
  o << "{\"raw\":" << raw(p[0]) << ",\"dim\":" << int(P::dim) << ",\"sz\":" << viennagrid::dynamic_size(p[0]) << ",\"zero\":" << loc(P()) << ",\"c\":[" << loc(p[0]) << "," << raw(c1) << "," << raw(c2) << "]"
    << ",\"add\":[" << loc(p[0] + p[1]) << "," << loc(ia) << "," << loc(p[0] + P(c[1])) << "]"
    << ",\"sub\":[" << loc(p[0] - p[1]) << "," << loc(is) << "]"
    << ",\"mul\":[" << loc(p[0] * f) << "," << loc(f * p[0]) << "," << loc(im) << "]"
    << ",\"div\":[" << loc(p[0] / f) << "," << loc(id) << "]"
    << ",\"neg\":" << loc(-p[0]) << ",\"chain\":" << loc(ch) << ",\"self\":" << loc(se)
    << ",\"n1\":[" << fx(viennagrid::norm_1(p[0])) << "," << fx(viennagrid::norm(p[0], viennagrid::one_norm_tag())) << "]"
    << ",\"n2\":[" << fx(viennagrid::norm_2(p[0])) << "," << fx(viennagrid::norm(p[0], viennagrid::two_norm_tag())) << "," << fx(viennagrid::norm(p[0])) << "]"
    << ",\"ni\":[" << fx(viennagrid::norm_inf(p[0])) << "," << fx(viennagrid::norm(p[0], viennagrid::inf_norm_tag())) << "]"
    << ",\"ip\":[" << fx(viennagrid::inner_prod(p[0], p[1])) << "," << fx(viennagrid::inner_prod(p[0], c[1])) << "," << fx(viennagrid::inner_prod(c[0], p[1])) << "]"
    << ",\"l\":[" << fx(viennagrid::spanned_volume(p[0], p[1])) << "," << fx(viennagrid::spanned_volume(c[0], p[1])) << "," << fx(viennagrid::signed_spanned_volume(p[0], c[1])) << "]"
    << ",\"a\":[" << fx(viennagrid::spanned_volume(p[0], p[1], p[2])) << "," << fx(viennagrid::spanned_volume(c[0], p[1], p[2])) << "," << fx(viennagrid::spanned_volume(p[0], c[1], p[2])) << "," << fx(viennagrid::spanned_volume(p[0], p[1], c[2])) << "]"
    << ",\"sa\":" << fx(viennagrid::signed_spanned_volume(p[0], p[1], p[2]));
  double an = viennagrid::angle(p[0], p[1]), an3 = viennagrid::angle(p[0], p[1], p[2]);
  o << ",\"ang\":[" << fx(std::cos(an)) << "," << fx(an) << "," << fx(std::cos(an3)) << "," << fx(an3) << "]";
  more<P, C, P::dim>::go(o, p, c);
  o << "}";
  return o.str();
}
static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int, bool & mut)
{
  if (op != "cs") return false;
  mut = false;
  Car2 c2[4]; Car3 c3[4];
  for (int i = 0; i < 4; ++i) { c2[i] = Car2(double(a[1+3*i]), double(a[2+3*i])); c3[i] = Car3(double(a[1+3*i]), double(a[2+3*i]), double(a[3+3*i])); }
  double f = double(a[13]), q = std::acos(-1.0) / 4.0;
  R << "{\"car2\":" << system<Car2, Car2>(c2, f) << ",\"pol\":" << system<Pol, Car2>(c2, f) << ",\"car3\":" << system<Car3, Car3>(c3, f) << ",\"sph\":" << system<Sph, Car3>(c3, f) << ",\"cyl\":" << system<Cyl, Car3>(c3, f)
    << ",\"ex\":[" << loc(Pol(f, q * double(a[14]))) << "," << loc(Sph(f, q * double(a[15]), q * double(a[14]))) << "," << loc(Cyl(f, q * double(a[14]), double(a[3]))) << "," << loc(Cyl(Sph(f, q * double(a[15]), q * double(a[14])))) << "," << loc(Sph(Cyl(f, q * double(a[14]), double(a[3])))) << "]"
    << ",\"mm\":[" << raw(viennagrid::min(c3[0], c3[1])) << "," << raw(viennagrid::max(c3[0], c3[1])) << "],\"less\":[" << viennagrid::point_less()(c3[0], c3[1]) << "," << viennagrid::point_less()(c3[1], c3[0]) << "," << viennagrid::point_less()(c3[0], c3[0]) << "]}";
  return true;
}

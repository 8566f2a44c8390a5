// Voronoi quantities of a mesh (second argument -1) or segment; reals are logged as round(1000 x), interface areas times the length of the edge.
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/voronoi.hpp"
struct Comma { bool first; Comma() : first(true) {} char const * operator()() { if (first) { first = false; return ""; } return ","; } };
static long fx(double x)
{
  double y = x * 1000.0;
  if (!(y == y)) return 999999937L;
  if (y > 8e8 || y < -8e8) return 999999929L;
  return static_cast<long>(std::floor(y + 0.5));
}
typedef viennagrid::result_of::const_cell_handle<Mesh>::type CCH;
typedef viennagrid::result_of::voronoi_cell_contribution<CCH>::type Con;
typedef viennagrid::result_of::element<Mesh, viennagrid::line_tag>::type Edge;
static std::string con(Mesh const & m, Con const & c, double f)
{
  std::map<long, double> by; for (std::size_t i = 0; i < c.size(); ++i) by[idof(viennagrid::dereference_handle(m, c[i].first))] += c[i].second * f;
  std::ostringstream o; Comma k; o << "["; for (std::map<long, double>::iterator i = by.begin(); i != by.end(); ++i) o << k() << "[" << i->first << "," << fx(i->second) << "]"; o << "]";
  return o.str();
}
template<typename H> static void voro(Mesh const & m, H const & h)
{
  std::deque<double> ia, bv, eb; std::deque<Con> iac, bvc, ebc;
  viennagrid::result_of::field<std::deque<double>, Edge>::type iaf(ia), ebf(eb); viennagrid::result_of::field<std::deque<double>, Vertex>::type bvf(bv);
  viennagrid::result_of::field<std::deque<Con>, Edge>::type iacf(iac), ebcf(ebc); viennagrid::result_of::field<std::deque<Con>, Vertex>::type bvcf(bvc);
  std::streambuf * oe = std::cerr.rdbuf(0);
  try { viennagrid::apply_voronoi<Cell>(h, iaf, iacf, bvf, bvcf, ebf, ebcf); } catch (...) { std::cerr.rdbuf(oe); throw; }
  std::cerr.rdbuf(oe);
  typedef typename viennagrid::result_of::const_element_range<H, viennagrid::line_tag>::type ER; typedef typename viennagrid::result_of::iterator<ER>::type EI;
  typedef typename viennagrid::result_of::const_element_range<H, viennagrid::vertex_tag>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI;
  ER er(h); VR vr(h); Comma c, d; R << "{\"E\":[";
  for (EI e = er.begin(); e != er.end(); ++e)
  {
    Point p = viennagrid::point(viennagrid::vertices(*e)[0]), q = viennagrid::point(viennagrid::vertices(*e)[1]); double len = 0; for (int i = 0; i < GD; ++i) len += (p[i] - q[i]) * (p[i] - q[i]); len = std::sqrt(len);
    R << c() << "{\"i\":" << idof(*e) << ",\"A\":" << fx(iaf(*e) * len) << ",\"V\":" << fx(ebf(*e)) << ",\"a\":" << con(m, iacf(*e), len) << ",\"v\":" << con(m, ebcf(*e), 1) << "}";
  }
  R << "],\"V\":[";
  for (VI v = vr.begin(); v != vr.end(); ++v) R << d() << "{\"i\":" << idof(*v) << ",\"V\":" << fx(bvf(*v)) << ",\"v\":" << con(m, bvcf(*v), 1) << "}";
  R << "]}";
}
static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool & mut)
{
  if (op != "vo") return false;
  mut = false;
  if (a[1] < 0) { voro(*M[m], static_cast<Mesh const &>(*M[m])); return true; }
  if (!seg(m).segment_present(static_cast<int>(a[1]))) { failed = true; return true; }
  Segment const s = seg(m).get_segment(static_cast<int>(a[1]));
  voro(*M[m], s);
  return true;
}

// Readers for files written here (netgen, bnd, tetgen poly, neper tess) and an independent reading of files written by the library (vmesh, opendx, mphtxt).
#include <sys/stat.h>
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/netgen_reader.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#if CT == 2 || CT == 4 || CT == 9
#include "viennagrid/io/opendx_writer.hpp"
#endif
#if CT == 4
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/io/mphtxt_writer.hpp"
#endif
#if CT == 6 || CT == 8
#include "viennagrid/io/tetgen_poly_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"
#endif
#if CT == 6
#include "viennagrid/io/bnd_reader.hpp"
#endif

struct Comma { bool first; Comma() : first(true) {} char const * operator()() { if (first) { first = false; return ""; } return ","; } };
static std::string ival(double x)
{
  std::ostringstream o; o.precision(12);
  double r = std::floor(x + 0.5);
  if (!(x == x) || x > 2e9 || x < -2e9 || std::fabs(x - r) > 1e-4) o << 2000000011L; else o << static_cast<long>(r);
  return o.str();
}
template<typename V> static std::string list(V const & v) { std::ostringstream o; Comma c; o << "["; for (std::size_t i = 0; i < v.size(); ++i) o << c() << v[i]; o << "]"; return o.str(); }
static std::string plist(std::vector<double> const & v) { std::ostringstream o; Comma c; o << "["; for (std::size_t i = 0; i < v.size(); ++i) o << c() << ival(v[i]); o << "]"; return o.str(); }
template<typename P> static std::vector<double> vec(P const & p) { std::vector<double> v; for (std::size_t i = 0; i < p.size(); ++i) v.push_back(p[i]); return v; }
typedef std::vector<long> L;
typedef std::vector<L> LL;

// the content of a mesh in iteration order: points, cells as positions in the list of points
struct Content
{
  std::vector<std::vector<double> > x; LL c; L vid, cid;
  explicit Content(int m)
  {
    typedef viennagrid::result_of::const_vertex_range<Mesh>::type VR; typedef viennagrid::result_of::iterator<VR>::type VI;
    typedef viennagrid::result_of::const_cell_range<Mesh>::type CR; typedef viennagrid::result_of::iterator<CR>::type CI;
    typedef viennagrid::result_of::const_vertex_range<Cell>::type KR; typedef viennagrid::result_of::iterator<KR>::type KI;
    Mesh const & cm = *M[m]; VR vr(cm); CR cr(cm); std::map<long, long> at;
    for (VI v = vr.begin(); v != vr.end(); ++v) { at[idof(*v)] = static_cast<long>(x.size()); x.push_back(vec(viennagrid::point(*v))); vid.push_back(idof(*v)); }
    for (CI c0 = cr.begin(); c0 != cr.end(); ++c0)
    { L l; KR kr(*c0); for (KI k = kr.begin(); k != kr.end(); ++k) l.push_back(at[idof(*k)]); c.push_back(l); cid.push_back(idof(*c0)); }
  }
};
static void points(std::vector<std::vector<double> > const & x) { Comma c; R << "["; for (std::size_t i = 0; i < x.size(); ++i) R << c() << plist(x[i]); R << "]"; }
static void lists(LL const & x) { Comma c; R << "["; for (std::size_t i = 0; i < x.size(); ++i) R << c() << list(x[i]); R << "]"; }
static std::string num(double d, long style) { std::ostringstream o; o.precision(15); if (style & 4) o << std::scientific; o << d; return o.str(); }

static void drop_seg(int n) { delete S[n]; S[n] = 0; }

// ---- netgen ------------------------------------------------------------------------------------
static void netgen(int m, int n, long api, long style, long cut)
{
  Content k(m); std::vector<std::string> tok; std::vector<bool> nl; LL cells;
#define TOK(s) { std::ostringstream o_; o_ << s; tok.push_back(o_.str()); nl.push_back(false); }
#define NL nl.back() = true;
  TOK(k.x.size()) NL
  for (std::size_t i = 0; i < k.x.size(); ++i) { for (std::size_t j = 0; j < k.x[i].size(); ++j) TOK(num(k.x[i][j], style)) NL }
  TOK(k.c.size()) NL
  for (std::size_t i = 0; i < k.c.size(); ++i)
  {
    long s = style & 1 ? 1 : static_cast<long>(k.cid[i] * 7 + style) % 3 + (style & 2 ? 0 : 1);
    L l(1, s); TOK(s) for (std::size_t j = 0; j < k.c[i].size(); ++j) { TOK(k.c[i][j] + 1) l.push_back(k.c[i][j]); } NL
    cells.push_back(l);
  }
  std::size_t keep = cut == 0 ? tok.size() : static_cast<std::size_t>(cut * 37) % tok.size();
  if (cut != 0 && (style & 16) && tok.size() > 0) keep = tok.size() - 1 - static_cast<std::size_t>(cut) % (tok.size() < 12 ? tok.size() : 12);
  {
    std::ofstream o("d.i/n.mesh");
    for (std::size_t i = 0; i < keep; ++i) { o << tok[i]; if (i + 1 < keep || (style & 8)) o << (nl[i] ? (style & 32 ? " \n" : "\n") : (style & 64 ? "\t" : "  ")); }
  }
  R << "{\"X\":"; points(k.x); R << ",\"C\":"; lists(cells); R << ",\"cut\":" << (keep == tok.size() ? 0 : 1);
  drop_seg(n); viennagrid::clear(*M[n]);
  viennagrid::io::netgen_reader r; int thrown = 0;
  try { if (api == 1) r(*M[n], "d.i/n.mesh"); else r(*M[n], seg(n), "d.i/n.mesh"); } catch (std::exception const &) { thrown = 1; }
  R << ",\"t\":" << thrown << "}";
}

// ---- bnd ---------------------------------------------------------------------------------------
#if CT == 6
static void bnd(int m, int n, long style)
{
  Content k(m); LL el; std::map<std::pair<long, long>, long> eno; std::vector<std::pair<long, long> > edges; LL faces; std::vector<std::string> nm, mat;
  std::map<long, long> cat; for (std::size_t i = 0; i < k.cid.size(); ++i) cat[k.cid[i]] = static_cast<long>(i);
  for (std::size_t i = 0; i < k.c.size(); ++i)
  {
    L f; int rot = static_cast<int>((k.cid[i] + style) % 3); bool back = (style & 1) && i % 2;
    for (int j0 = 0; j0 < 3; ++j0)
    {
      int j = (j0 + rot) % 3; long a = k.c[i][j], b = k.c[i][(j + 1) % 3];
      if (back) { j = 2 - j; a = k.c[i][(j + 1) % 3]; b = k.c[i][j]; }
      if (eno.count(std::make_pair(a, b))) f.push_back(eno[std::make_pair(a, b)]);
      else if (eno.count(std::make_pair(b, a))) f.push_back(-eno[std::make_pair(b, a)] - 1);
      else { eno[std::make_pair(a, b)] = static_cast<long>(edges.size()); f.push_back(static_cast<long>(edges.size())); edges.push_back(std::make_pair(a, b)); }
    }
    faces.push_back(f);
  }
  bool segs = S[m] && S[m]->begin() != S[m]->end();
  if (segs) for (Segmentation::iterator s = S[m]->begin(); s != S[m]->end(); ++s)
  {
    viennagrid::result_of::const_cell_range<Segment>::type cr(*s); L f;
    for (viennagrid::result_of::iterator<viennagrid::result_of::const_cell_range<Segment>::type>::type c = cr.begin(); c != cr.end(); ++c) f.push_back(cat[idof(*c)]);
    el.push_back(f);
  }
  else { L f; for (std::size_t i = 0; i < faces.size(); ++i) f.push_back(static_cast<long>(i)); el.push_back(f); }
  for (std::size_t i = 0; i < el.size(); ++i) { std::ostringstream a, b; a << "r" << (el.size() - i); b << "Mat " << i * 3; nm.push_back(a.str()); mat.push_back(b.str()); }
  LL con; if ((style & 2) && !faces.empty()) { con.push_back(faces[0]); if (faces.size() > 1) con.push_back(faces[faces.size() - 1]); }
  {
    std::ofstream o("d.i/b.bnd");
    std::size_t ncon = con.size();
    o << "DF-ISE text\n\nInfo {\n  version = 1.1\n  type    = boundary\n  dimension   = 3\n  nb_vertices = " << k.x.size() << "\n  nb_edges    = " << edges.size() << "\n  nb_faces    = " << faces.size()
      << "\n  nb_elements = " << el.size() + ncon << "\n  nb_regions  = " << el.size() + (ncon ? 1 : 0) << "\n  regions     = [ ]\n  materials   = [ ]\n}\n\nData {\n\n  CoordSystem {\n    translate = [ 0 0 0 ]\n    transform = [ 1 0 0 0 1 0 0 0 1 ]\n  }\n\n";
    o << "  Vertices (" << k.x.size() << ") {\n"; for (std::size_t i = 0; i < k.x.size(); ++i) { for (int j = 0; j < 3; ++j) o << " " << num(k.x[i][j], style); o << "\n"; } o << "  }\n\n";
    o << "  Edges (" << edges.size() << ") {\n"; for (std::size_t i = 0; i < edges.size(); ++i) o << edges[i].first << " " << edges[i].second << "\n"; o << "  }\n\n";
    o << "  Faces (" << faces.size() << ") {\n"; for (std::size_t i = 0; i < faces.size(); ++i) { o << faces[i].size(); for (int j = 0; j < 3; ++j) o << " " << faces[i][j]; o << "\n"; } o << "  }\n\n";
    o << "  Elements (" << el.size() + ncon << ") {\n";
    for (std::size_t i = 0; i < el.size(); ++i) { o << "10 " << el[i].size(); for (std::size_t j = 0; j < el[i].size(); ++j) o << " " << ((style & 8) && j % 2 ? -el[i][j] - 1 : el[i][j]); o << "\n"; }
    for (std::size_t i = 0; i < ncon; ++i) o << "2 " << con[i][0] << " " << con[i][1] << " " << con[i][2] << "\n";
    o << "  }\n\n";
    for (std::size_t i = 0; i < el.size(); ++i) o << "  Region (\"" << nm[i] << "\") {\n    material = " << mat[i] << "\n    Elements (1) { " << "\n " << i << "\n    }\n  }\n";
    if (ncon) { o << "  Region (\"con tact\") {\n    material = Contact\n    Elements (" << ncon << ") {\n"; for (std::size_t i = 0; i < ncon; ++i) o << " " << el.size() + i; o << "\n    }\n  }\n"; }
    o << "}\n";
  }
  R << "{\"X\":"; points(k.x); R << ",\"C\":"; lists(k.c); R << ",\"L\":"; lists(el);
  viennagrid::io::bnd_helper h; h("d.i/b.bnd");
  R << ",\"h\":{\"d\":" << h.dim_geom() << ",\"X\":[";
  Comma c; for (std::size_t i = 0; i < h.geometry_size(); ++i) R << c() << plist(h.point(i));
  R << "],\"S\":["; Comma d;
  for (std::size_t i = 0; i < h.segment_size(); ++i)
  {
    LL f; for (std::size_t j = 0; j < h.segment(i).size(); ++j) f.push_back(h.segment(i)[j]);
    R << d() << "{\"n\":" << (h.segment_name(i) == nm[i] ? 1 : 0) << ",\"m\":" << (h.segment_material(i) == mat[i] ? 1 : 0) << ",\"f\":"; lists(f); R << "}";
  }
  LL cf; if (h.contact_size() == 1) cf = h.contact_faces(0);
  R << "],\"n\":" << h.contact_size() << ",\"cn\":" << (h.contact_size() == 0 || h.contact_name(0) == "con tact" ? 1 : 0) << ",\"cf\":"; lists(cf); R << "},\"nc\":" << con.size() << "}";
  drop_seg(n); viennagrid::clear(*M[n]);
  viennagrid::io::bnd_reader r; r(*M[n], seg(n), "d.i/b.bnd");
}
#endif

// ---- piecewise linear complexes ----------------------------------------------------------------
#if CT == 6 || CT == 8
typedef viennagrid::plc_3d_mesh Plc;
typedef viennagrid::result_of::point<Plc>::type PP;
struct Facet { LL p; std::vector<std::vector<double> > h; };
static void plcdump(Plc const & p)
{
  typedef viennagrid::result_of::const_vertex_range<Plc>::type VR; typedef viennagrid::result_of::const_line_range<Plc>::type LR; typedef viennagrid::result_of::const_element_range<Plc, viennagrid::plc_tag>::type CR;
  typedef viennagrid::result_of::element<Plc, viennagrid::plc_tag>::type PC;
  typedef viennagrid::result_of::const_element_range<PC, viennagrid::vertex_tag>::type PV; typedef viennagrid::result_of::const_element_range<PC, viennagrid::line_tag>::type PL;
  VR vr(p); LR lr(p); CR cr(p); Comma c, d, e;
  R << "{\"V\":["; for (viennagrid::result_of::iterator<VR>::type v = vr.begin(); v != vr.end(); ++v) R << c() << "[" << idof(*v) << "," << plist(vec(viennagrid::point(*v))) << "]";
  R << "],\"L\":["; for (viennagrid::result_of::iterator<LR>::type l = lr.begin(); l != lr.end(); ++l) R << d() << "[" << idof(viennagrid::vertices(*l)[0]) << "," << idof(viennagrid::vertices(*l)[1]) << "]";
  R << "],\"C\":[";
  for (viennagrid::result_of::iterator<CR>::type f = cr.begin(); f != cr.end(); ++f)
  {
    PV pv(*f); PL pl(*f); Comma g, h, i;
    R << e() << "{\"V\":["; for (viennagrid::result_of::iterator<PV>::type v = pv.begin(); v != pv.end(); ++v) R << g() << idof(*v);
    R << "],\"L\":["; for (viennagrid::result_of::iterator<PL>::type l = pl.begin(); l != pl.end(); ++l) R << h() << "[" << idof(viennagrid::vertices(*l)[0]) << "," << idof(viennagrid::vertices(*l)[1]) << "]";
    R << "],\"H\":["; std::vector<PP> const & hp = viennagrid::hole_points(*f); for (std::size_t j = 0; j < hp.size(); ++j) R << i() << plist(vec(hp[j])); R << "]}";
  }
  R << "]}";
}
static void wfacets(std::vector<Facet> const & f)
{
  Comma c; R << "["; for (std::size_t i = 0; i < f.size(); ++i) { R << c() << "{\"P\":"; lists(f[i].p); R << ",\"H\":"; points(f[i].h); R << "}"; } R << "]";
}
static void sg(std::vector<std::pair<PP, int> > const & s)
{ Comma c; R << "["; for (std::size_t i = 0; i < s.size(); ++i) R << c() << "[" << plist(vec(s[i].first)) << "," << s[i].second << "]"; R << "]"; }
static L ring(L const & c) { L r = c; if (CT == 8) std::swap(r[2], r[3]); return r; }   // quadrilaterals list their vertices row by row
static void poly(int m, long style)
{
  Content k(m); long base = (style & 1) ? 1 : (style & 2) ? 3 : 0; long mul = (style & 4) ? 2 : 1;
  std::vector<Facet> fs; std::size_t i = 0;
  while (i < k.c.size())
  {
    Facet f; std::size_t take = (style & 8) ? 1 + (i + style) % 2 : 1;
    for (; take > 0 && i < k.c.size(); --take, ++i) { L r = ring(k.c[i]); for (std::size_t j = 0; j < r.size(); ++j) r[j] = base + mul * r[j]; f.p.push_back(r); }
    if ((style & 16) && i % 2 && k.x.size() > 3) { L l; l.push_back(base + mul * (static_cast<long>(i) % static_cast<long>(k.x.size()))); f.p.push_back(l); }
    if ((style & 32) && k.x.size() > 3) { L l; long n = static_cast<long>(k.x.size()); l.push_back(base + mul * (static_cast<long>(i + 1) % n)); l.push_back(base + mul * (static_cast<long>(i + 2) % n)); f.p.push_back(l); }
    for (long h = 0; h < (style / 64) % 3; ++h) { std::vector<double> p(3); for (int j = 0; j < 3; ++j) p[j] = static_cast<double>(100 * static_cast<long>(i) + 10 * h + j); f.h.push_back(p); }
    fs.push_back(f);
  }
  long tail = (style / 256) % 3, nh = (style / 8) % 3, ns = (style / 2) % 3, cm = (style / 16) % 2;
  std::vector<std::vector<double> > H; std::vector<std::pair<PP, int> > SP;
  if (tail >= 1) for (long j = 0; j < nh; ++j) { std::vector<double> p(3); p[0] = -static_cast<double>(j); p[1] = 7; p[2] = static_cast<double>(style); H.push_back(p); }
  if (tail >= 2) for (long j = 0; j < ns; ++j) { PP p; p[0] = static_cast<double>(j); p[1] = -8; p[2] = 3; SP.push_back(std::make_pair(p, static_cast<int>(5 - 3 * j))); }
  {
    std::ofstream o("d.i/p.poly"); char const * nx = cm ? "   # note 1 2 3\n\n# line 4\n   \n" : "\n";
    if (cm) o << "# header 9 9\n\n";
    o << k.x.size() << " 3 0 0" << nx;
    for (std::size_t v = 0; v < k.x.size(); ++v) { o << (cm ? "  " : "") << base + mul * static_cast<long>(v); for (int j = 0; j < 3; ++j) o << " " << num(k.x[v][j], 0); o << nx; }
    o << fs.size() << " " << (style & 1) << nx;
    for (std::size_t f = 0; f < fs.size(); ++f)
    {
      o << fs[f].p.size() << " " << fs[f].h.size() << ((style & 1) ? " 1" : "") << nx;
      for (std::size_t p = 0; p < fs[f].p.size(); ++p) { o << fs[f].p[p].size(); for (std::size_t j = 0; j < fs[f].p[p].size(); ++j) o << "  " << fs[f].p[p][j]; o << nx; }
      for (std::size_t h = 0; h < fs[f].h.size(); ++h) { o << h + 1; for (int j = 0; j < 3; ++j) o << " " << fs[f].h[h][j]; o << nx; }
    }
    if (tail >= 1) { o << H.size() << nx; for (std::size_t h = 0; h < H.size(); ++h) { o << h + 1; for (int j = 0; j < 3; ++j) o << " " << H[h][j]; o << nx; } }
    if (tail >= 2) { o << SP.size() << nx; for (std::size_t h = 0; h < SP.size(); ++h) { o << h + 1; for (int j = 0; j < 3; ++j) o << " " << SP[h].first[j]; o << " " << SP[h].second << " 0.1" << nx; } }
  }
  int ov = static_cast<int>(style % 4); Plc p; viennagrid::io::tetgen_poly_reader r;
  std::vector<PP> gh(1); std::vector<std::pair<PP, int> > gs(1);
  if (ov == 0) r(p, "d.i/p.poly"); else if (ov == 1) r(p, "d.i/p.poly", gh); else if (ov == 2) r(p, "d.i/p.poly", gs); else r(p, "d.i/p.poly", gh, gs);
  std::vector<std::vector<double> > ghv; for (std::size_t j = 0; j < gh.size(); ++j) ghv.push_back(vec(gh[j]));
  Comma c; R << "{\"V\":["; for (std::size_t v = 0; v < k.x.size(); ++v) R << c() << "[" << base + mul * static_cast<long>(v) << "," << plist(k.x[v]) << "]";
  R << "],\"F\":"; wfacets(fs); R << ",\"H\":"; points(H); R << ",\"S\":"; sg(SP); R << ",\"hh\":" << (ov & 1) << ",\"hs\":" << (ov / 2) << ",\"gH\":"; points(ghv); R << ",\"gS\":"; sg(gs);
  R << ",\"G\":"; plcdump(p); R << "}";
}
static void tess(int m, long style)
{
  Content k(m); std::vector<Facet> fs; long base = 1 + style % 3, mul = 1 + style % 2;
  for (std::size_t i = 0; i < k.c.size(); ++i) { Facet f; L r = ring(k.c[i]); for (std::size_t j = 0; j < r.size(); ++j) r[j] = base + mul * r[j]; f.p.push_back(r); fs.push_back(f); }
  std::vector<std::pair<PP, int> > SP; for (long j = 0; j < (style / 4) % 4; ++j) { PP p; p[0] = static_cast<double>(j); p[1] = -8; p[2] = 3; SP.push_back(std::make_pair(p, static_cast<int>(9 - 3 * j))); }
  {
    std::ofstream o("d.i/t.tess"); o << "***tess\n **format\n   1.9\n";
    o << " **vertex\n   " << k.x.size() << "\n"; for (std::size_t v = 0; v < k.x.size(); ++v) { o << "   " << base + mul * static_cast<long>(v) << " 3 1 2 3\n      1 4\n      "; for (int j = 0; j < 3; ++j) o << " " << num(k.x[v][j], style); o << " 0\n"; }
    o << " **edge\n   0\n **face\n   " << fs.size() << "\n";
    for (std::size_t f = 0; f < fs.size(); ++f) { o << "   " << f + 1 << "\n   2 1 2\n  0 0 1\n  " << fs[f].p[0].size(); for (std::size_t j = 0; j < fs[f].p[0].size(); ++j) o << " " << fs[f].p[0][j]; o << "\n   3 1 2 3\n   0 0 0 1\n   0 0 0 0\n"; }
    o << " **polyhedron\n   " << SP.size() << "\n"; for (std::size_t j = 0; j < SP.size(); ++j) o << "   " << SP[j].second << " " << SP[j].first[0] << " " << SP[j].first[1] << " " << SP[j].first[2] << "\n   4 1 2 3 4\n   1 1 1 1\n";
    o << "***end\n";
  }
  Plc p; viennagrid::io::neper_tess_reader r; std::vector<std::pair<PP, int> > gs(1); bool ws = (style & 16) == 0;
  if (ws) r(p, "d.i/t.tess", gs); else r(p, "d.i/t.tess");
  std::vector<std::vector<double> > none;
  Comma c; R << "{\"V\":["; for (std::size_t v = 0; v < k.x.size(); ++v) R << c() << "[" << v << "," << plist(k.x[v]) << "]";
  for (std::size_t f = 0; f < fs.size(); ++f) for (std::size_t j = 0; j < fs[f].p[0].size(); ++j) fs[f].p[0][j] = (fs[f].p[0][j] - base) / mul;
  R << "],\"F\":"; wfacets(fs); R << ",\"H\":[],\"S\":"; sg(SP); R << ",\"hh\":0,\"hs\":" << (ws ? 1 : 0) << ",\"gH\":[],\"gS\":"; sg(gs);
  R << ",\"G\":"; plcdump(p); R << "}";
}
#endif

// ---- writers -----------------------------------------------------------------------------------
static std::string slurp(char const * f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
static std::string between(std::string const & s, std::size_t & from, char const * tag)
{
  std::string a = std::string("<") + tag + ">", b = std::string("</") + tag + ">"; std::size_t i = s.find(a, from);
  if (i == std::string::npos) return "-1";
  std::size_t e = s.find(b, i); if (e == std::string::npos) return "-1";
  from = e + b.size(); return s.substr(i + a.size(), e - i - a.size());
}
static void vmesh(int m, long style)
{
  viennagrid::io::vmesh_writer<Mesh> w; ::remove("d.i/x.vmesh");
  w(*M[m], seg(m), "in/put.mesh", style & 1 ? "d.i/x.vmesh" : "d.i/x");
  std::string s = slurp("d.i/x.vmesh"); std::size_t p = 0;
  R << "{\"f\":" << jstr(between(s, p, "file")); R << ",\"d\":" << between(s, p, "geomdim"); R << ",\"t\":" << jstr(between(s, p, "celltype")); R << ",\"v\":" << between(s, p, "vertices");
  R << ",\"c\":" << between(s, p, "cells"); R << ",\"n\":" << between(s, p, "segments") << ",\"S\":["; Comma c;
  while (s.find("<segment>", p) != std::string::npos) { R << c() << "[" << between(s, p, "id"); R << "," << between(s, p, "vertices"); R << "," << between(s, p, "cells") << "]"; }
  R << "]}";
}
#if CT == 2 || CT == 4 || CT == 9
static void opendx(int m, long style)
{
  typedef viennagrid::io::opendx_writer<Mesh> W; W w; std::deque<double> dv, dc; Content k(m);
  for (std::size_t i = 0; i < k.vid.size(); ++i) { std::size_t id = static_cast<std::size_t>(k.vid[i]); if (dv.size() <= id) dv.resize(id + 1); dv[id] = 1000.0 + static_cast<double>(id); }
  for (std::size_t i = 0; i < k.cid.size(); ++i) { std::size_t id = static_cast<std::size_t>(k.cid[i]); if (dc.size() <= id) dc.resize(id + 1); dc[id] = 5000.0 + static_cast<double>(id); }
  std::streambuf * old = std::cout.rdbuf(0);
  if (style & 1) viennagrid::io::add_scalar_data_on_vertices(w, viennagrid::make_accessor<Vertex>(dv), "v");
  if (style & 2) viennagrid::io::add_scalar_data_on_cells(w, viennagrid::make_field<Cell>(dc), "c");
  std::cout.rdbuf(old);
  w(*M[m], "d.i/x.dx");
  std::ifstream f("d.i/x.dx"); std::string t; R << "{";
  std::vector<std::string> arr(3, "[]"); long shape[3] = { -1, -1, -1 }, items[3] = { -1, -1, -1 }; std::string dep = "none"; std::string etype = "";
  while (std::getline(f, t))
  {
    int which = t.find("object \"points\"") == 0 ? 0 : t.find("object \"grid_Line_One\"") == 0 ? 1 : t.find("object \"VisData\"") == 0 ? 2 : -1;
    if (which >= 0)
    {
      std::size_t s = t.find("shape "), i = t.find("items "); shape[which] = s == std::string::npos ? 1 : std::atol(t.c_str() + s + 6); items[which] = std::atol(t.c_str() + i + 6);
      std::ostringstream o; Comma c; o << "[";
      for (long j = 0; j < items[which]; ++j) { Comma d; o << c() << "["; for (long q = 0; q < shape[which]; ++q) { double x = -999; f >> x; o << d() << ival(which == 2 ? x - 0.00001 : x); } o << "]"; }
      o << "]"; arr[which] = o.str(); std::getline(f, t);
    }
    if (t.find("attribute \"dep\"") == 0) dep = t.find("positions") != std::string::npos ? "positions" : "connections";
    if (t.find("attribute \"element type\"") == 0) { std::size_t a = t.find("string \""); etype = t.substr(a + 8, t.find('"', a + 8) - a - 8); }
  }
  R << "\"X\":" << arr[0] << ",\"xs\":" << shape[0] << ",\"C\":" << arr[1] << ",\"cs\":" << shape[1] << ",\"Z\":" << arr[2] << ",\"zn\":" << items[2] << ",\"dep\":" << jstr(dep) << ",\"ty\":" << jstr(etype) << "}";
}
#endif
#if CT == 4
static std::string uncomment(std::string const & s)
{ std::string o; bool skip = false; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] == '#') skip = true; if (s[i] == '\n') skip = false; if (!skip) o += s[i]; } return o; }
static void mphtxt(int m, long style)
{
  std::streambuf * old = std::cout.rdbuf(0);
  viennagrid::io::mphtxt_writer w; ::remove("d.i/x.mphtxt");
  try { w(*M[m], seg(m), style & 1 ? "d.i/x.mphtxt" : "d.i/x"); } catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old);
  std::istringstream f(uncomment(slurp("d.i/x.mphtxt"))); std::string t; long a = -1, b = -1, nt = -1;
  for (int i = 0; i < 14; ++i) f >> t;    // 0 1 / 1 / 15 viennagrid_mesh / 1 / 3 obj / 0 0 1 / 4 Mesh / 2
  long dim = -1, np = -1, low = -1, types = -1; f >> dim >> np >> low;
  R << "{\"d\":" << dim << ",\"np\":" << np << ",\"low\":" << low << ",\"X\":["; Comma c;
  for (long i = 0; i < np; ++i) { Comma d; R << c() << "["; for (long j = 0; j < dim; ++j) { double x = -999; f >> x; R << d() << ival(x); } R << "]"; }
  f >> types >> a >> t >> b >> nt; R << "],\"types\":" << types << ",\"T\":["; Comma e; bool ok = t == "tri" && b == 3;
  for (long i = 0; i < nt; ++i) { long x = -1, y = -1, z = -1; f >> x >> y >> z; R << e() << "[" << x << "," << y << "," << z << "]"; }
  f >> a >> b; f >> a; ok = ok && a == nt; R << "],\"K\":["; Comma g;
  for (long i = 0; i < nt; ++i) { long x = -1; f >> x; R << g() << x; }
  f >> a; ok = ok && a == nt; R << "],\"U\":["; Comma h;
  for (long i = 0; i < nt; ++i) { long x = -1, y = -1; f >> x >> y; R << h() << "[" << x << "," << y << "]"; }
  long n4 = -1; f >> a >> t >> b >> n4; ok = ok && t == "tet" && b == 4; R << "],\"C\":["; Comma i4;
  for (long i = 0; i < n4; ++i) { long x[4] = { -1, -1, -1, -1 }; f >> x[0] >> x[1] >> x[2] >> x[3]; R << i4() << "[" << x[0] << "," << x[1] << "," << x[2] << "," << x[3] << "]"; }
  f >> a >> b; f >> a; ok = ok && a == n4; R << "],\"D\":["; Comma j4;
  for (long i = 0; i < n4; ++i) { long x = -1; f >> x; R << j4() << x; }
  f >> a; ok = ok && a == 0 && f; R << "],\"ok\":" << (ok ? 1 : 0) << "}";
}
#endif

static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool & mut)
{
  if (op != "ng" && op != "bd" && op != "pt" && op != "pn" && op != "wv" && op != "wd" && op != "wm") return false;
  mkdir("d.i", 0777);
  if (op == "ng" || op == "bd")
  {
    int n = static_cast<int>(a[1]) & 1;
    if (n == m || viennagrid::vertices(*M[m]).size() == 0) { failed = true; return true; }
    if (op == "ng") netgen(m, n, a[2], a[3], a[4]);
#if CT == 6
    else bnd(m, n, a[3]);
#else
    else failed = true;
#endif
    return true;
  }
  mut = false; (void)a;
#if CT == 6 || CT == 8
  if (op == "pt") { poly(m, a[1]); return true; }
  if (op == "pn") { tess(m, a[1]); return true; }
#endif
  if (op == "wv") { vmesh(m, a[1]); return true; }
#if CT == 2 || CT == 4 || CT == 9
  if (op == "wd") { opendx(m, a[1]); return true; }
#endif
#if CT == 4
  if (op == "wm")
  {
    // the format has one domain per tetrahedron
    viennagrid::result_of::const_cell_range<Mesh>::type cr(static_cast<Mesh const &>(*M[m]));
    for (viennagrid::result_of::iterator<viennagrid::result_of::const_cell_range<Mesh>::type>::type c = cr.begin(); c != cr.end(); ++c)
    {
      int in = 0; for (Segmentation::iterator s = seg(m).begin(); s != seg(m).end(); ++s) if (viennagrid::is_in_segment(*s, *c)) ++in;
      if (in != 1) { failed = true; return true; }
    }
    mphtxt(m, a[1]); return true;
  }
#endif
  failed = true;
  return true;
}

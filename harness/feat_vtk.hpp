// VTK: write with the library, read the file independently, read it back with the library (vt); read a file written here (vx).
#include <sys/stat.h>
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"

struct Comma { bool first; Comma() : first(true) {} char const * operator()() { if (first) { first = false; return ""; } return ","; } };
static std::string ival(double x)
{
  std::ostringstream o; o.precision(12);
  double r = std::floor(x + 0.5);
  if (!(x == x) || x > 2e9 || x < -2e9 || std::fabs(x - r) > 1e-6) o << 2000000011L; else o << static_cast<long>(r);
  return o.str();
}
static double val(int k, int q, long s, int c, long id)
{ double v = 1000000000.0 + k * 100000000.0 + q * 10000000.0 + (s + 1) * 1000000.0 + c * 100000.0 + id; return c == 1 ? -v : v; }
typedef std::vector<double> Vec;
static Vec vecval(int k, int q, long s, long id) { Vec v(3); for (int c = 0; c < 3; ++c) v[c] = val(k, q, s, c, id); return v; }
static char const * const NM[5] = { "Phi", "a b", "E", "sP", "sE" };   // quantities 0, 1 scalar; 2 vector; 3, 4 scalar, vector per segment
static int comps(int q) { return q == 2 || q == 4 ? 3 : 1; }

// ---- an independent reading of the XML files --------------------------------------------
struct Tag_ { std::string name; std::map<std::string, std::string> at; std::string text; };
static std::vector<Tag_> tags(std::string const & file)
{
  std::vector<Tag_> out; std::ifstream f(file.c_str()); std::stringstream b; b << f.rdbuf(); std::string s = b.str();
  std::size_t i = 0;
  while ((i = s.find('<', i)) != std::string::npos)
  {
    Tag_ t; std::size_t e = s.find('>', i); if (e == std::string::npos) break;
    std::string in = s.substr(i + 1, e - i - 1); std::size_t sp = in.find_first_of(" \t\n");
    t.name = in.substr(0, sp);
    while (sp != std::string::npos)
    {
      std::size_t eq = in.find('=', sp); if (eq == std::string::npos) break;
      std::size_t q0 = in.find('"', eq), q1 = in.find('"', q0 + 1);
      std::string k = in.substr(sp, eq - sp); k.erase(0, k.find_first_not_of(" \t\n"));
      t.at[k] = in.substr(q0 + 1, q1 - q0 - 1); sp = q1 + 1;
    }
    std::size_t n = s.find('<', e); t.text = s.substr(e + 1, n == std::string::npos ? n : n - e - 1);
    out.push_back(t); i = e;
  }
  return out;
}
static void nums(std::string const & text)
{ std::istringstream i(text); double d; Comma c; R << "["; while (i >> d) R << c() << ival(d); R << "]"; }
static void vtu(std::string const & file, std::string const & part)
{
  std::vector<Tag_> t = tags(file); std::string where; Comma d;
  std::ostringstream keep; std::string pd, cd, X = "[]", co = "[]", of = "[]", ty = "[]", np = "-1", nc = "-1";
  for (std::size_t i = 0; i < t.size(); ++i)
  {
    if (t[i].name == "Piece") { np = t[i].at["NumberOfPoints"]; nc = t[i].at["NumberOfCells"]; }
    if (t[i].name == "Points" || t[i].name == "Cells" || t[i].name == "PointData" || t[i].name == "CellData") where = t[i].name;
    if (t[i].name == "/Points" || t[i].name == "/Cells" || t[i].name == "/PointData" || t[i].name == "/CellData") where = "";
    if (t[i].name != "DataArray") continue;
    std::string save = R.str(); R.str(""); nums(t[i].text); std::string n = R.str(); R.str(""); R << save;
    if (where == "Points") { X = n; if (t[i].at["NumberOfComponents"] != "3") X = "[]"; }
    else if (where == "Cells") { std::string w = t[i].at["Name"]; if (w == "connectivity") co = n; else if (w == "offsets") of = n; else if (w == "types") ty = n; }
    else
    {
      std::string nco = t[i].at.count("NumberOfComponents") ? t[i].at["NumberOfComponents"] : "1";
      std::string & w = where == "PointData" ? pd : cd;
      w += std::string(w.empty() ? "" : ",") + "{\"n\":" + jstr(t[i].at["Name"]) + ",\"c\":" + nco + ",\"v\":" + n + "}";
    }
  }
  R << "{\"s\":" << part << ",\"np\":" << np << ",\"nc\":" << nc << ",\"X\":" << X << ",\"co\":" << co << ",\"of\":" << of << ",\"ty\":" << ty << ",\"PD\":[" << pd << "],\"CD\":[" << cd << "]}";
}
static void files(std::string const & base, std::string & main)
{
  std::ifstream one((base + ".vtu").c_str());
  R << "[";
  if (one) { main = base + ".vtu"; vtu(main, "-1"); }
  else
  {
    main = base + "_main.pvd";
    std::string dir = base.substr(0, base.rfind('/') + 1);
    std::vector<Tag_> t = tags(main); Comma c;
    for (std::size_t i = 0; i < t.size(); ++i) if (t[i].name == "DataSet") { R << c(); vtu(dir + t[i].at["file"], t[i].at["part"]); }
  }
  R << "]";
}

// ---- writing ----------------------------------------------------------------------------
typedef viennagrid::io::vtk_writer<Mesh, Segmentation> Writer;
typedef viennagrid::io::vtk_reader<Mesh, Segmentation> Reader;
template<typename E> struct Data   // containers of one element kind; they outlive the call of the writer
{
  std::map<std::pair<int, long>, std::deque<double> > s; std::map<std::pair<int, long>, std::deque<Vec> > v;
  std::deque<double> & sc(int q, long g) { return s[std::make_pair(q, g)]; }
  std::deque<Vec> & ve(int q, long g) { return v[std::make_pair(q, g)]; }
};
template<typename E, typename Range> void fill(Range const & r, int k, Data<E> & d, int q, long g)
{
  typedef typename viennagrid::result_of::iterator<Range>::type It;
  viennagrid::dense_container_accessor<std::deque<double>, E> a(d.sc(q, g)); viennagrid::dense_container_accessor<std::deque<Vec>, E> b(d.ve(q, g));
  for (It it = r.begin(); it != r.end(); ++it) { a(*it) = val(k, q, g, 0, idof(*it)); b(*it) = vecval(k, q, g, idof(*it)); }
}
static Writer & writer() { static Writer w; return w; }
static Reader & reader() { static Reader r; return r; }
static void write(Writer & w, int m, long mode, long mask, std::string const & base)
{
  Data<Vertex> dv; Data<Cell> dc;
  typedef viennagrid::result_of::const_vertex_range<Mesh>::type VR; typedef viennagrid::result_of::const_cell_range<Mesh>::type CR;
  Mesh const & cm = *M[m];
  VR vr(cm); CR cr(cm);
  using namespace viennagrid::io;
  if (mask & 1) for (int q = 0; q < 2; ++q) { fill(vr, 0, dv, q, -1); add_scalar_data_on_vertices(w, viennagrid::make_field<Vertex>(dv.sc(q, -1)), NM[q]); }
  if (mask & 2) { fill(vr, 0, dv, 2, -1); add_vector_data_on_vertices(w, viennagrid::make_accessor<Vertex>(dv.ve(2, -1)), NM[2]); }
  if (mask & 4) for (int q = 0; q < 2; ++q) { fill(cr, 1, dc, q, -1); add_scalar_data_on_cells(w, viennagrid::make_accessor<Cell>(dc.sc(q, -1)), NM[q]); }
  if (mask & 8) { fill(cr, 1, dc, 2, -1); add_vector_data_on_cells(w, viennagrid::make_field<Cell>(dc.ve(2, -1)), NM[2]); }
  if (mode == 1)
  {
    Segmentation & sg = seg(m);
    for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s)
    {
      if ((mask & 256) && s->id() % 2 != 0) continue;
      long g = s->id();
      if (mask & 16) { fill(vr, 0, dv, 3, g); add_scalar_data_on_vertices(w, *s, viennagrid::make_field<Vertex>(dv.sc(3, g)), NM[3]); }
      if (mask & 32) { fill(vr, 0, dv, 4, g); w.add_vector_data_on_vertices(*s, viennagrid::make_accessor<Vertex>(dv.ve(4, g)), NM[4]); }
      if (mask & 64) { fill(cr, 1, dc, 3, g); w.add_scalar_data_on_cells(s->id(), viennagrid::make_field<Cell>(dc.sc(3, g)), NM[3]); }
      if (mask & 128) { fill(cr, 1, dc, 4, g); add_vector_data_on_cells(w, *s, viennagrid::make_accessor<Cell>(dc.ve(4, g)), NM[4]); }
    }
    w(cm, sg, base);
  }
  else w(cm, base);
}

// ---- reading -----------------------------------------------------------------------------
template<typename E> struct Got
{
  typedef typename viennagrid::result_of::id<E>::type Id;
  typedef std::map<Id, double> SM; typedef std::map<Id, Vec> VM;
  std::map<std::pair<int, long>, SM> s; std::map<std::pair<int, long>, VM> v;
};
static std::string one(double d) { return "[" + ival(d) + "]"; }
static std::string one(Vec const & v) { std::string o = "["; for (std::size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + ival(v[i]); return o + "]"; }
template<typename MapT> void dumpmap(Comma & c, int k, int q, long g, int reg, MapT const & m)
{
  if (m.empty()) return;
  Comma d; R << c() << "{\"k\":" << k << ",\"q\":" << q << ",\"s\":" << g << ",\"g\":" << reg << ",\"v\":[";
  for (typename MapT::const_iterator it = m.begin(); it != m.end(); ++it) R << d() << "[" << it->first.get() << "," << one(it->second) << "]";
  R << "]}";
}
template<typename F, typename Range> void dumpfield(Comma & c, int k, int q, long g, F f, Range const & r)
{
  typedef typename viennagrid::result_of::iterator<Range>::type It;
  if (!f.is_valid()) return;
  Comma d; R << c() << "{\"k\":" << k << ",\"q\":" << q << ",\"s\":" << g << ",\"g\":0,\"v\":[";
  F const & cf = f;
  for (It it = r.begin(); it != r.end(); ++it) R << d() << "[" << idof(*it) << "," << one(cf(*it)) << "]";
  R << "]}";
}
static void names(Comma & c, int k, int co, long g, std::vector<std::string> const & n)
{ for (std::size_t i = 0; i < n.size(); ++i) R << c() << "[" << k << "," << co << "," << g << "," << jstr(n[i]) << "]"; }
static void names2(Comma & c, int k, int co, std::vector<std::pair<std::size_t, std::string> > const & n)
{ for (std::size_t i = 0; i < n.size(); ++i) R << c() << "[" << k << "," << co << "," << n[i].first << "," << jstr(n[i].second) << "]"; }
template<typename A> struct acc_ { typedef viennagrid::std_map_accessor<A, Vertex> V; typedef viennagrid::std_map_accessor<A, Cell> C; };
static void read(Reader & r, int n, std::string const & file, long api, long reg, std::vector<long> const & segs)
{
  int rg[4] = { int(reg % 3), int(reg / 3 % 3), int(reg / 9 % 3), int(reg / 27 % 3) };   // vertex scalar, vertex vector, cell scalar, cell vector
  Got<Vertex> gv; Got<Cell> gc;
  for (int q = 0; q < 5; ++q)
  {
    bool sc = comps(q) == 1;
    int rv = rg[sc ? 0 : 1], rc = rg[sc ? 2 : 3];
    if (sc && rv == 1) r.register_vertex_scalar(viennagrid::make_accessor<Vertex>(gv.s[std::make_pair(q, -1L)]), NM[q]);
    if (!sc && rv == 1) r.register_vertex_vector(viennagrid::make_field<Vertex>(gv.v[std::make_pair(q, -1L)]), NM[q]);
    if (sc && rc == 1) r.register_cell_scalar(viennagrid::make_field<Cell>(gc.s[std::make_pair(q, -1L)]), NM[q]);
    if (!sc && rc == 1) r.register_cell_vector(viennagrid::make_accessor<Cell>(gc.v[std::make_pair(q, -1L)]), NM[q]);
    for (std::size_t i = 0; i < segs.size(); ++i)
    {
      int g = static_cast<int>(segs[i]);
      if (sc && rv == 2) r.register_vertex_scalar(g, viennagrid::make_field<Vertex>(gv.s[std::make_pair(q, segs[i])]), NM[q]);
      if (!sc && rv == 2) r.register_vertex_vector(g, viennagrid::make_accessor<Vertex>(gv.v[std::make_pair(q, segs[i])]), NM[q]);
      if (sc && rc == 2) r.register_cell_scalar(g, viennagrid::make_accessor<Cell>(gc.s[std::make_pair(q, segs[i])]), NM[q]);
      if (!sc && rc == 2) r.register_cell_vector(g, viennagrid::make_field<Cell>(gc.v[std::make_pair(q, segs[i])]), NM[q]);
    }
  }
  Mesh & dst = *M[n];
  Reader const & cr = r;
  if (api == 1) r(dst, file); else r(dst, seg(n), file);
  Comma c; R << ",\"D\":[";
  for (std::map<std::pair<int, long>, Got<Vertex>::SM>::iterator i = gv.s.begin(); i != gv.s.end(); ++i) dumpmap(c, 0, i->first.first, i->first.second, 1, i->second);
  for (std::map<std::pair<int, long>, Got<Vertex>::VM>::iterator i = gv.v.begin(); i != gv.v.end(); ++i) dumpmap(c, 0, i->first.first, i->first.second, 1, i->second);
  for (std::map<std::pair<int, long>, Got<Cell>::SM>::iterator i = gc.s.begin(); i != gc.s.end(); ++i) dumpmap(c, 1, i->first.first, i->first.second, 1, i->second);
  for (std::map<std::pair<int, long>, Got<Cell>::VM>::iterator i = gc.v.begin(); i != gc.v.end(); ++i) dumpmap(c, 1, i->first.first, i->first.second, 1, i->second);
  for (int q = 0; q < 5; ++q)
  {
    if (api == 1 && segs.size() != 1) continue;
    if (api == 1)
    {
      viennagrid::result_of::const_cell_range<Mesh>::type cells(dst);
      if (comps(q) == 1) dumpfield(c, 1, q, 0, cr.cell_scalar_field(NM[q], 0), cells); else dumpfield(c, 1, q, 0, cr.cell_vector_field(NM[q], 0), cells);
      continue;
    }
    for (Segmentation::iterator s = seg(n).begin(); s != seg(n).end(); ++s)
    {
      viennagrid::result_of::const_vertex_range<Segment>::type vs(*s); viennagrid::result_of::const_cell_range<Segment>::type cs(*s);
      if (comps(q) == 1) { dumpfield(c, 0, q, s->id(), cr.vertex_scalar_field(NM[q], *s), vs); dumpfield(c, 1, q, s->id(), cr.cell_scalar_field(NM[q], s->id()), cs); }
      else { dumpfield(c, 0, q, s->id(), cr.vertex_vector_field(NM[q], s->id()), vs); dumpfield(c, 1, q, s->id(), r.cell_vector_field(NM[q], *s), cs); }
    }
  }
  R << "],\"N\":["; Comma d;
  for (std::size_t i = 0; i < segs.size(); ++i)
  {
    int g = static_cast<int>(segs[i]);
    names(d, 0, 1, g, cr.scalar_vertex_data_names(g)); names(d, 0, 3, g, cr.vector_vertex_data_names(g));
    names(d, 1, 1, g, cr.scalar_cell_data_names(g)); names(d, 1, 3, g, cr.vector_cell_data_names(g));
  }
  R << "],\"G\":["; Comma e;
  names2(e, 0, 1, cr.get_scalar_data_on_vertices()); names2(e, 0, 3, cr.get_vector_data_on_vertices());
  names2(e, 1, 1, cr.get_scalar_data_on_cells()); names2(e, 1, 3, cr.get_vector_data_on_cells());
  R << "]";
}

// ---- a file written here: any layout the format allows ---------------------------------------
template<typename T> static void arr(std::ostream & o, std::string const & name, int co, std::vector<T> const & v, long style)
{
  o << "<DataArray type=\"Float32\" Name=\"" << name << "\"";
  if (co != 1 || !(style & 1)) o << " NumberOfComponents=\"" << co << "\"";
  o << " format=\"ascii\">";
  o.precision(15);
  for (std::size_t i = 0; i < v.size(); ++i) { o << (style & 8 ? "\n\t" : " "); if (style & 16) o << std::scientific; o << v[i]; }
  o << "\n</DataArray>\n";
  o.unsetf(std::ios_base::floatfield);
}
static void own(int m, std::string const & file, long mask, long style)
{
  typedef viennagrid::result_of::const_vertex_range<Mesh>::type VR; typedef viennagrid::result_of::iterator<VR>::type VI;
  typedef viennagrid::result_of::const_cell_range<Mesh>::type CR; typedef viennagrid::result_of::iterator<CR>::type CI;
  typedef viennagrid::result_of::const_vertex_range<Cell>::type KR; typedef viennagrid::result_of::iterator<KR>::type KI;
  Mesh const & cm = *M[m]; VR vr(cm); CR cr(cm);
  std::set<long> used; std::vector<long> vid, cid; std::vector<std::vector<long> > cells; std::map<long, Point> pt;
  for (CI c = cr.begin(); c != cr.end(); ++c)
  { std::vector<long> v; KR kr(*c); for (KI k = kr.begin(); k != kr.end(); ++k) { v.push_back(idof(*k)); used.insert(idof(*k)); } cells.push_back(v); cid.push_back(idof(*c)); }
  for (VI v = vr.begin(); v != vr.end(); ++v) if (used.count(idof(*v)) || (style & 64)) { vid.push_back(idof(*v)); pt[idof(*v)] = viennagrid::point(*v); }
  if (style & 32) std::reverse(vid.begin(), vid.end());
  std::map<long, long> at; for (std::size_t i = 0; i < vid.size(); ++i) at[vid[i]] = static_cast<long>(i);
  std::ofstream o(file.c_str());
  o << "<?xml version=\"1.0\"?>\n<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n";
  if (style & 8) o << "<Piece NumberOfCells=\"" << cells.size() << "\" NumberOfPoints=\"" << vid.size() << "\">\n";
  else o << "<Piece NumberOfPoints=\"" << vid.size() << "\"  NumberOfCells=\"" << cells.size() << "\" >\n";
  std::vector<double> x;
  for (std::size_t i = 0; i < vid.size(); ++i) for (int j = 0; j < 3; ++j) x.push_back(j < GD ? pt[vid[i]][j] : 0);
  o << "<Points>\n"; arr(o, "Points", 3, x, style & ~1); o << "</Points>\n";
  for (int part = 0; part < 3; ++part)
  {
    if (part == 1)
    {
      std::vector<long> co, of, ty; std::vector<std::vector<long> > A(3); std::vector<std::string> nm(3);
      static const int type[] = { 0, 3, 5, 9, 10, 12, 5, 3, 9, 3 };
      static const int qd[8] = { 0, 1, 3, 2, 4, 5, 7, 6 };
      for (std::size_t i = 0; i < cells.size(); ++i)
      {
        for (int j = 0; j < NV; ++j) co.push_back(at[cells[i][CT == 3 || CT == 5 || CT == 8 ? qd[j] : j]]);
        of.push_back(static_cast<long>(co.size())); ty.push_back(type[CT]);
      }
      A[0] = co; A[1] = of; A[2] = ty; nm[0] = "connectivity"; nm[1] = "offsets"; nm[2] = "types";
      if (style & 4) { std::reverse(A.begin(), A.end()); std::reverse(nm.begin(), nm.end()); }
      o << "<Cells>\n"; for (int i = 0; i < 3; ++i) arr(o, nm[i], 1, A[i], 1); o << "</Cells>\n";
      continue;
    }
    int k = part == 0 ? 0 : 1; std::vector<long> const & ids = k ? cid : vid;
    bool s = (mask & (k ? 4 : 1)) != 0, v = (mask & (k ? 8 : 2)) != 0;
    if (!s && !v) { if (style & 128) o << (k ? "<CellData>\n</CellData>\n" : "<PointData>\n</PointData>\n"); continue; }
    o << (k ? "<CellData>\n" : "<PointData Scalars=\"x\">\n");
    std::vector<double> a0, a1, a2;
    for (std::size_t i = 0; i < ids.size(); ++i) { a0.push_back(val(k, 0, -1, 0, ids[i])); a1.push_back(val(k, 1, -1, 0, ids[i])); for (int c = 0; c < 3; ++c) a2.push_back(val(k, 2, -1, c, ids[i])); }
    if (v && (style & 2)) arr(o, NM[2], 3, a2, style);
    if (s) { arr(o, NM[0], 1, a0, style); arr(o, NM[1], 1, a1, style); }
    if (v && !(style & 2)) arr(o, NM[2], 3, a2, style);
    o << (k ? "</CellData>\n" : "</PointData>\n");
  }
  o << "</Piece>\n</UnstructuredGrid>\n</VTKFile>\n";
}

static void drop_seg(int n) { delete S[n]; S[n] = 0; }
static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool &)
{
  if (op != "vt" && op != "vx") return false;
  int n = static_cast<int>(a[1]) & 1;
  if (n == m) { failed = true; return true; }
  mkdir("d.v", 0777);
  static long count = 0; std::ostringstream nm; nm << "d.v/f" << ++count % 3;
  std::string base = nm.str();
  std::vector<long> segs;
  ::remove((base + ".vtu").c_str()); ::remove((base + "_main.pvd").c_str());
  if (op == "vt")      // src dst mode api mask reg fresh
  {
    Writer * fw = a[6] & 1 ? new Writer() : &writer();
    write(*fw, m, a[2], a[4], base);
    if (a[6] & 1) delete fw;
    std::string main; R << "{\"F\":"; files(base, main);
    bool many = main.size() > 4 && main.substr(main.size() - 4) == ".pvd";
    if (many) for (Segmentation::iterator s = seg(m).begin(); s != seg(m).end(); ++s) segs.push_back(s->id()); else segs.push_back(0);
    drop_seg(n); viennagrid::clear(*M[n]);
    Reader * fr = a[6] & 2 ? new Reader() : &reader();
    read(*fr, n, main, a[3], a[5], segs);
    if (a[6] & 2) delete fr;
    R << "}";
    return true;
  }
  own(m, base + ".vtu", a[4], a[6]);      // src dst 0 api mask reg style
  segs.push_back(0);
  drop_seg(n); viennagrid::clear(*M[n]);
  R << "{\"F\":[]";
  read(reader(), n, base + ".vtu", a[3], a[5], segs);
  R << "}";
  return true;
}

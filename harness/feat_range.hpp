// Ranges and iterators: one dump (QR) of every sequence the access paths to the elements of a host show.
struct Seqs      // the distinct sequences seen, each way contributes one
{
  std::set<std::vector<long> > s; std::vector<long> first; bool any; Seqs() : any(false) {}
  void add(std::vector<long> const & v) { if (!any) { first = v; any = true; } s.insert(v); }
  std::string str() const
  {
    std::ostringstream o; o << "["; bool f = true;
    for (std::set<std::vector<long> >::const_iterator i = s.begin(); i != s.end(); ++i) { o << (f ? "" : ",") << jlist(*i); f = false; }
    o << "]"; return o.str();
  }
};
struct Pick { std::vector<long> * out; int dim; explicit Pick(std::vector<long> * o, int d) : out(o), dim(d) {}
  template<typename E> void operator()(E const & e) const { if (viennagrid::result_of::topologic_dimension<E>::value == dim) out->push_back(idof(e)); } };
template<typename R> struct is_view_range { enum { value = false }; };
template<typename A, typename B> struct is_view_range<viennagrid::detail::container_range_wrapper<viennagrid::view<A, B> > > { enum { value = true }; };
template<bool skip> struct through_const { template<typename RangeT, typename HostT> static void go(Seqs &, RangeT, HostT &) {} };      // does not compile there
template<> struct through_const<false> { template<typename RangeT, typename HostT> static void go(Seqs & q, RangeT r, HostT & h)
{
  RangeT const & cr = r; std::vector<long> v;
  typedef typename viennagrid::result_of::const_iterator<RangeT>::type CIt;
  for (CIt it = cr.begin(); it != cr.end(); ++it) v.push_back(idof(*it));
  q.add(v); v.clear();
  for (CIt it = cr.end(); it != cr.begin(); ) { --it; v.push_back(idof(*it)); }
  std::reverse(v.begin(), v.end()); q.add(v); v.clear();
  for (std::size_t i = 0; i < cr.size(); ++i) v.push_back(idof(cr[i]));
  q.add(v); v.clear();
  for (std::size_t i = 0; i < cr.size(); ++i) v.push_back(idof(viennagrid::dereference_handle(static_cast<HostT const &>(h), cr.handle_at(i))));
  q.add(v);
} };
template<typename It> void same(std::vector<long> & v, It const & before, It const & got) { if (!(before == got)) v.push_back(-4); }
template<typename It, typename X> void same(std::vector<long> &, It const &, X const &) {}      // maps: the iterator of the underlying container
template<typename RangeT, typename HostT> void walk(Seqs & q, RangeT r, HostT & h)
{
  typedef typename viennagrid::result_of::iterator<RangeT>::type It;
  std::vector<long> v;
  for (It it = r.begin(); it != r.end(); ++it) v.push_back(idof(*it));
  q.add(v); v.clear();
  for (It it = r.begin(); it != r.end(); ) { It old = it; same(v, old, it++); if (old == it) { v.push_back(-3); break; } v.push_back(idof(*old)); }
  q.add(v); v.clear();
  for (It it = r.begin(); !(it == r.end()); it++) v.push_back(idof(*it));
  q.add(v); v.clear();
  for (It it = r.end(); it != r.begin(); ) { --it; v.push_back(idof(*it)); }
  std::reverse(v.begin(), v.end()); q.add(v); v.clear();
  for (It it = r.end(); it != r.begin(); ) { It old = it; same(v, old, it--); if (old == it) { v.push_back(-3); break; } v.push_back(idof(*it)); }
  std::reverse(v.begin(), v.end()); q.add(v); v.clear();
  for (It it = r.begin(); it != r.end(); ++it) v.push_back(idof(viennagrid::dereference_handle(static_cast<HostT const &>(h), it.handle())));
  q.add(v); v.clear();
  for (std::size_t i = 0; i < r.size(); ++i) v.push_back(idof(r[i]));
  q.add(v); v.clear();
  for (std::size_t i = 0; i < r.size(); ++i) v.push_back(idof(viennagrid::dereference_handle(static_cast<HostT const &>(h), r.handle_at(i))));
  q.add(v);
  through_const<is_view_range<RangeT>::value>::go(q, r, h);
  RangeT r2(r); r2 = r;
  v.clear(); for (It it = r2.begin(); it != r2.end(); ++it) v.push_back(idof(*it));
  q.add(v);
}
template<typename RangeT> std::string ends(RangeT r)
{
  RangeT const & cr = r; std::ostringstream o;
  o << "[";
  if (!r.empty()) o << idof(r.front()) << "," << idof(cr.front()) << "," << idof(r.back()) << "," << idof(cr.back());
  o << "]"; return o.str();
}
template<bool ok> struct fb_ { template<typename RangeT> static std::string go(RangeT r) { return ends(r); } };
template<> struct fb_<false> { template<typename RangeT> static std::string go(RangeT) { return "[]"; } };
template<int K, typename H, typename RangeT> std::string front_back(H &, RangeT) { return "[]"; }      // sets have neither front nor back
template<int K, typename RangeT> std::string front_back(Mesh &, RangeT r) { return fb_<K == 0 || K == D>::go(r); }
// access functions named after the element
template<typename Tag> struct named { template<typename H> static void go(Seqs &, H &) {} };
#define NAMED(TAG, RNG, FN) template<> struct named<viennagrid::TAG> { template<typename H> static void go(Seqs & q, H & h) { H const & c = h; \
  walk<typename viennagrid::result_of::RNG##_range<H>::type>(q, viennagrid::FN(h), h); walk<typename viennagrid::result_of::const_##RNG##_range<H>::type>(q, viennagrid::FN(c), h); } };
NAMED(vertex_tag, vertex, vertices)
NAMED(triangle_tag, triangle, triangles)
NAMED(quadrilateral_tag, quadrilateral, quadrilaterals)
NAMED(tetrahedron_tag, tetrahedron, tetrahedra)
NAMED(hexahedron_tag, hexahedron, hexahedra)
template<> struct named<viennagrid::line_tag> { template<typename H> static void go(Seqs & q, H & h) { H const & c = h;
  walk<typename viennagrid::result_of::line_range<H>::type>(q, viennagrid::lines(h), h); walk<typename viennagrid::result_of::const_line_range<H>::type>(q, viennagrid::lines(c), h);
  walk<typename viennagrid::result_of::edge_range<H>::type>(q, viennagrid::edges(h), h); walk<typename viennagrid::result_of::const_edge_range<H>::type>(q, viennagrid::edges(c), h); } };
template<int K> struct named_dim { template<typename H> static void go(Seqs &, H &) {} };
template<> struct named_dim<D> { template<typename H> static void go(Seqs & q, H & h) { H const & c = h;
  walk<typename viennagrid::result_of::cell_range<H>::type>(q, viennagrid::cells(h), h); walk<typename viennagrid::result_of::const_cell_range<H>::type>(q, viennagrid::cells(c), h); } };
template<> struct named_dim<D-1> { template<typename H> static void go(Seqs & q, H & h) { H const & c = h;
  walk<typename viennagrid::result_of::facet_range<H>::type>(q, viennagrid::facets(h), h); walk<typename viennagrid::result_of::const_facet_range<H>::type>(q, viennagrid::facets(c), h); } };
template<int K, typename H> void upper(std::ostream & o, H const &) { o << -1; }
template<int K> void upper(std::ostream & o, Mesh const & h) { o << static_cast<long>(viennagrid::id_upper_bound<typename viennagrid::result_of::element<Mesh, typename LT<K>::type>::type>(h).get()); }
template<int K> void upper(std::ostream & o, Segment const & h) { o << static_cast<long>(viennagrid::id_upper_bound<typename viennagrid::result_of::element<Mesh, typename LT<K>::type>::type>(h).get()); }
template<bool ok> struct rev_ { template<typename R1, typename R2> static void go(Seqs &, R1, R2) {} };
template<> struct rev_<true> { template<typename R1, typename R2> static void go(Seqs & q, R1 r, R2 cr)
{
  std::vector<long> v;
  for (typename R1::reverse_iterator it = r.rbegin(); it != r.rend(); ++it) v.push_back(idof(*it));
  std::reverse(v.begin(), v.end()); q.add(v); v.clear();
  for (typename R2::reverse_iterator it = cr.rbegin(); it != cr.rend(); it++) v.push_back(idof(*it));
  std::reverse(v.begin(), v.end()); q.add(v); v.clear();
  R1 const & c = r; for (typename R1::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) v.push_back(idof(*it));
  std::reverse(v.begin(), v.end()); q.add(v);
} };
template<int K, typename H, typename R1, typename R2> void reverse_walk(Seqs &, H &, R1, R2) {}      // views and maps have no rbegin
template<int K, typename R1, typename R2> void reverse_walk(Seqs & q, Mesh &, R1 r, R2 cr) { rev_<K == 0 || K == D>::go(q, r, cr); }
template<int K, typename H> void each(Seqs & q, H & h)
{
  std::vector<long> v; viennagrid::for_each<K>(h, Pick(&v, K)); q.add(v);
  v.clear(); viennagrid::for_each(h, Pick(&v, K)); q.add(v);
}
template<int K> void each(Seqs &, Segmentation &) {}
// searching for an element compiles for segments only
template<typename R1, typename R2, typename E> void look(Mesh &, R1 & r, R2 &, E & e, std::vector<long> & out) { if (r.find(e.id()) != r.end()) out.push_back(idof(e)); }
template<typename H, typename R1, typename R2, typename E> void look(H &, R1 & r, R2 & cr, E & e, std::vector<long> & out)
{
  typename viennagrid::result_of::iterator<R1>::type jt = r.find(e);
  bool in = jt != r.end(), cin_ = cr.find(e) != cr.end();
  if (in != cin_) out.push_back(-5); else if (in) out.push_back(&*jt == &e ? idof(*jt) : -6);
}
template<typename H> struct AllRanges
{
  H & h; Mesh & m; long code; bool & first; AllRanges(H & h_, Mesh & m_, long c, bool & f) : h(h_), m(m_), code(c), first(f) {}
  template<int K> void call()
  {
    typedef typename LT<K>::type Tag; typedef typename viennagrid::result_of::element<Mesh, Tag>::type E;
    typedef typename viennagrid::result_of::element_range<H, Tag>::type Range; typedef typename viennagrid::result_of::const_element_range<H, Tag>::type CRange;
    H const & c = h; Range r(h); CRange cr(c);
    Seqs q;
    walk<Range>(q, r, h); walk<CRange>(q, cr, h);
    walk<Range>(q, viennagrid::elements<Tag>(h), h); walk<CRange>(q, viennagrid::elements<Tag>(c), h); walk<CRange>(q, CRange(r), h);
    walk<Range>(q, viennagrid::elements<E>(h), h);
    named<Tag>::go(q, h); named_dim<K>::go(q, h); each<K>(q, h); reverse_walk<K>(q, h, r, cr);
    // lookups: every id up to a bit above the highest; every element of the mesh
    long top = -1; std::vector<long> byi, bye, byh;
    typedef typename viennagrid::result_of::element_range<Mesh, Tag>::type MRange; MRange mr(m);
    for (typename viennagrid::result_of::iterator<MRange>::type it = mr.begin(); it != mr.end(); ++it) top = std::max(top, idof(*it));
    for (long i = 0; i <= top + 2; ++i)
    {
      typename viennagrid::result_of::iterator<Range>::type it = viennagrid::find(h, typename E::id_type(i));
      bool in = it != r.end(), cin_ = cr.find(typename E::id_type(i)) != cr.end();
      if (in != cin_) byi.push_back(-5); else if (in) byi.push_back(idof(*it));
    }
    for (typename viennagrid::result_of::iterator<MRange>::type e = mr.begin(); e != mr.end(); ++e)
    {
      typename viennagrid::result_of::iterator<Range>::type it = viennagrid::find_by_handle(h, e.handle());
      if (it != r.end()) byh.push_back(&*it == &*e ? idof(*it) : -5);
      look(h, r, cr, *e, bye);
    }
    R << (first ? "" : ",") << "{\"h\":" << code << ",\"k\":" << K << ",\"q\":" << q.str() << ",\"n\":" << jlist(std::vector<long>(1, static_cast<long>(r.size()))) << ",\"e\":" << ((r.empty() && cr.empty()) ? 1 : (r.empty() || cr.empty()) ? 2 : 0)
      << ",\"x\":" << front_back<K>(h, r) << ",\"y\":" << front_back<K>(h, cr) << ",\"f\":" << jlist(byi) << ",\"t\":" << jlist(bye) << ",\"g\":" << jlist(byh) << ",\"u\":";
    upper<K>(R, h); R << "}"; first = false;
  }
};
struct SubRanges
{
  Mesh & m; bool & first; SubRanges(Mesh & m_, bool & f) : m(m_), first(f) {}
  template<int K, int L> void call()
  {
    typedef typename LT<K>::type Tag; typedef typename viennagrid::result_of::element<Mesh, typename LT<L>::type>::type Host;
    typedef typename viennagrid::result_of::element_range<Mesh, typename LT<L>::type>::type HR; HR hr(m);
    typedef typename viennagrid::result_of::element_range<Host, Tag>::type Range; typedef typename viennagrid::result_of::const_element_range<Host, Tag>::type CRange;
    for (typename viennagrid::result_of::iterator<HR>::type h = hr.begin(); h != hr.end(); ++h)
    {
      Host & e = *h; Host const & c = e; Seqs q; Range r(e); CRange cr(c);
      walk<Range>(q, r, m); walk<CRange>(q, cr, m);
      walk<Range>(q, viennagrid::elements<Tag>(e), m); walk<CRange>(q, viennagrid::elements<Tag>(c), m);
      sub(q, e, vh::bool_<K == 0>(), vh::bool_<K == 1>(), vh::bool_<K == L-1>());
      R << (first ? "" : ",") << "[" << L << "," << idof(e) << "," << K << "," << q.str() << "," << r.size() << "," << (r.empty() || cr.empty() ? 1 : 0) << "," << ends(r) << "," << ends(cr) << "]"; first = false;
    }
  }
  template<typename RT, typename X> void w(Seqs & q, X r) { walk<RT>(q, r, m); }
  template<typename E, bool B, bool F> void sub(Seqs & q, E & e, vh::bool_<true>, vh::bool_<B>, vh::bool_<F>)
  {
    E const & c = e;
    w<typename viennagrid::result_of::vertex_range<E>::type>(q, viennagrid::vertices(e)); w<typename viennagrid::result_of::const_vertex_range<E>::type>(q, viennagrid::vertices(c));
    fac(q, e, vh::bool_<F>());
  }
  template<typename E, bool F> void sub(Seqs & q, E & e, vh::bool_<false>, vh::bool_<true>, vh::bool_<F>)
  {
    E const & c = e;
    w<typename viennagrid::result_of::line_range<E>::type>(q, viennagrid::lines(e)); w<typename viennagrid::result_of::const_edge_range<E>::type>(q, viennagrid::edges(c));
    fac(q, e, vh::bool_<F>());
  }
  template<typename E, bool F> void sub(Seqs & q, E & e, vh::bool_<false>, vh::bool_<false>, vh::bool_<F>) { fac(q, e, vh::bool_<F>()); }
  template<typename E> void fac(Seqs &, E &, vh::bool_<false>) {}
  template<typename E> void fac(Seqs & q, E & e, vh::bool_<true>)
  {
    E const & c = e;
    w<typename viennagrid::result_of::facet_range<E>::type>(q, viennagrid::facets(e)); w<typename viennagrid::result_of::const_facet_range<E>::type>(q, viennagrid::facets(c));
  }
};
static bool feature(std::string const & op, std::vector<long> const &, std::string const &, int m, bool & mut)
{
  if (op != "QR") return false;
  mut = false;
  bool first = true;
  R << "{\"H\":[";
  { AllRanges<Mesh> f(*M[m], *M[m], -2, first); allk<D>::go(f); }
  Segmentation & sg = seg(m);
  { AllRanges<Segmentation> f(sg, *M[m], -1, first); allk<D>::go(f); }
  for (Segmentation::iterator s = sg.begin(); s != sg.end(); ++s) { AllRanges<Segment> f(*s, *M[m], s->id(), first); allk<D>::go(f); }
  R << "],\"E\":["; first = true;
  { SubRanges f(*M[m], first); all2(f); }
  R << "]}";
  return true;
}

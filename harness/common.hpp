// Shared pieces of the conformance drivers: cell-type selection, JSON output, mesh projection.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <stdexcept>
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/mesh.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"

#ifndef CT
#define CT 2
#endif

namespace vh { template<bool B> struct bool_ {}; }
namespace vh
{
  using namespace viennagrid;
#if CT == 1
  typedef viennagrid::line_2d_mesh Mesh;
  typedef viennagrid::line_tag CellTag;
  enum { D = 1, NV = 2, GD = 2 };
#elif CT == 2
  typedef viennagrid::triangular_2d_mesh Mesh;
  typedef viennagrid::triangle_tag CellTag;
  enum { D = 2, NV = 3, GD = 2 };
#elif CT == 3
  typedef viennagrid::quadrilateral_2d_mesh Mesh;
  typedef viennagrid::quadrilateral_tag CellTag;
  enum { D = 2, NV = 4, GD = 2 };
#elif CT == 4
  typedef viennagrid::tetrahedral_3d_mesh Mesh;
  typedef viennagrid::tetrahedron_tag CellTag;
  enum { D = 3, NV = 4, GD = 3 };
#elif CT == 5
  typedef viennagrid::hexahedral_3d_mesh Mesh;
  typedef viennagrid::hexahedron_tag CellTag;
  enum { D = 3, NV = 8, GD = 3 };
#elif CT == 6   // triangles embedded in 3d
  typedef viennagrid::triangular_3d_mesh Mesh;
  typedef viennagrid::triangle_tag CellTag;
  enum { D = 2, NV = 3, GD = 3 };
#elif CT == 7   // lines in 3d
  typedef viennagrid::line_3d_mesh Mesh;
  typedef viennagrid::line_tag CellTag;
  enum { D = 1, NV = 2, GD = 3 };
#elif CT == 8   // quads in 3d
  typedef viennagrid::quadrilateral_3d_mesh Mesh;
  typedef viennagrid::quadrilateral_tag CellTag;
  enum { D = 2, NV = 4, GD = 3 };
#elif CT == 9   // lines in 1d
  typedef viennagrid::line_1d_mesh Mesh;
  typedef viennagrid::line_tag CellTag;
  enum { D = 1, NV = 2, GD = 1 };
#endif
  // facet type of the 3d cells
#if CT == 5
  typedef viennagrid::quadrilateral_tag Face3Tag;
#else
  typedef viennagrid::triangle_tag Face3Tag;
#endif
  template<int K, int DD> struct level_tag { typedef CellTag type; };
  template<int DD> struct level_tag<0,DD> { typedef viennagrid::vertex_tag type; };
  template<> struct level_tag<1,2> { typedef viennagrid::line_tag type; };
  template<> struct level_tag<1,3> { typedef viennagrid::line_tag type; };
  template<> struct level_tag<2,3> { typedef Face3Tag type; };
  template<int K> struct LT { typedef typename level_tag<K,D>::type type; };

  typedef viennagrid::result_of::segmentation<Mesh>::type Segmentation;
  typedef viennagrid::result_of::segment_handle<Segmentation>::type Segment;
  typedef viennagrid::result_of::point<Mesh>::type Point;
  typedef viennagrid::result_of::vertex<Mesh>::type Vertex;
  typedef viennagrid::result_of::vertex_handle<Mesh>::type VertexHandle;
  typedef viennagrid::result_of::cell<Mesh>::type Cell;
  typedef viennagrid::result_of::cell_handle<Mesh>::type CellHandle;

  inline Point mkpoint(double const * c)
  {
    Point p;
    for (int i = 0; i < GD; ++i) p[i] = c[i];
    return p;
  }

  // ---- JSON -----------------------------------------------------------------
  // a double as an integer when it is one (within 1e-7), else a sentinel outside every model value
  inline long toint(double x, double scale = 1.0)
  {
    double y = x * scale;
    if (!(y == y)) return 999999937L;
    if (y > 1e8 || y < -1e8) return 999999929L;
    double r = std::floor(y + 0.5);
    if (std::fabs(y - r) > 1e-6 * (1.0 + std::fabs(r)*1e-3)) return 999999893L;
    return static_cast<long>(r);
  }
  inline std::string jstr(std::string const & s)
  {
    std::string o = "\"";
    for (std::size_t i = 0; i < s.size(); ++i)
    {
      if (s[i] == '"' || s[i] == '\\') o += '\\';
      if (s[i] == '\n') o += ' '; else o += s[i];
    }
    return o + "\"";
  }
  template<typename T> std::string jlist(std::vector<T> const & v)
  {
    std::ostringstream o; o << "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; }
    o << "]"; return o.str();
  }
  template<typename E> long idof(E const & e) { return static_cast<long>(e.id().get()); }

  // element of level K with a given id (linear search through plain iteration: uses no id index)
  template<int K, typename MeshT>
  typename viennagrid::result_of::handle<MeshT, typename LT<K>::type>::type byid(MeshT & m, long id, bool & ok)
  {
    typedef typename LT<K>::type Tag;
    typedef typename viennagrid::result_of::element_range<MeshT, Tag>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    ok = false;
    typename viennagrid::result_of::handle<MeshT, Tag>::type h = typename viennagrid::result_of::handle<MeshT, Tag>::type();
    for (It it = r.begin(); it != r.end(); ++it)
      if (idof(*it) == id) { h = it.handle(); ok = true; break; }
    return h;
  }

  template<int K, int J> struct subs   // ids of the level-J boundary elements of a level-K element
  {
    template<typename E> static std::vector<long> get(E const & e)
    {
      typedef typename LT<J>::type Tag;
      typedef typename viennagrid::result_of::const_element_range<E, Tag>::type Range;
      typedef typename viennagrid::result_of::iterator<Range>::type It;
      Range r(e);
      std::vector<long> out;
      for (It it = r.begin(); it != r.end(); ++it) out.push_back(idof(*it));
      return out;
    }
  };
  template<int K, typename E> std::string sublists(E const & e)
  {
    std::ostringstream o;
    o << "[";
    if (K >= 2) o << jlist(subs<(K>=2?K:2), (K>=2?1:1)>::get(e));
    o << "]";
    return o.str();
  }
  // {"i":id,"v":[vertex ids],"b":[[line ids],[face ids]]}
  template<int K> struct elemdump
  {
    template<typename E> static void go(std::ostream & o, E const & e)
    {
      o << "{\"i\":" << idof(e) << ",\"v\":" << jlist(subs<K,0>::get(e)) << ",\"b\":[";
      bl(o, e);
      o << "]}";
    }
    template<typename E> static void bl(std::ostream & o, E const & e)
    {
      o << jlist(subs<K,1>::get(e));
      if (K == 3) { o << ","; o << jlist(subs<(K==3?3:K),(K==3?2:1)>::get(e)); }
    }
  };
  template<> struct elemdump<1>
  {
    template<typename E> static void go(std::ostream & o, E const & e)
    { o << "{\"i\":" << idof(e) << ",\"v\":" << jlist(subs<1,0>::get(e)) << ",\"b\":[]}"; }
  };
  template<int K, typename MeshT> void leveldump(std::ostream & o, MeshT const & m)
  {
    typedef typename LT<K>::type Tag;
    typedef typename viennagrid::result_of::const_element_range<MeshT, Tag>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    o << "[";
    bool first = true;
    for (It it = r.begin(); it != r.end(); ++it) { if (!first) o << ","; first = false; elemdump<K>::go(o, *it); }
    o << "]";
  }
  template<typename MeshT> void vertdump(std::ostream & o, MeshT const & m, double scale = 1.0)
  {
    typedef typename viennagrid::result_of::const_vertex_range<MeshT>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    o << "[";
    bool first = true;
    for (It it = r.begin(); it != r.end(); ++it)
    {
      if (!first) o << ","; first = false;
      o << "{\"i\":" << idof(*it) << ",\"p\":[";
      for (int i = 0; i < GD; ++i) { if (i) o << ","; o << toint(viennagrid::point(m, *it)[i], scale); }
      o << "]}";
    }
    o << "]";
  }
  template<int K, typename MeshT> void idsdump(std::ostream & o, MeshT const & m)
  {
    typedef typename LT<K>::type Tag;
    typedef typename viennagrid::result_of::const_element_range<MeshT, Tag>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    o << "[";
    bool first = true;
    for (It it = r.begin(); it != r.end(); ++it) { if (!first) o << ","; first = false; o << idof(*it); }
    o << "]";
  }
  template<int K> struct upto
  {
    template<typename MeshT> static void lev(std::ostream & o, MeshT const & m) { upto<K-1>::lev(o, m); if (K > 1) o << ","; leveldump<K>(o, m); }
    template<typename MeshT> static void ids(std::ostream & o, MeshT const & m) { upto<K-1>::ids(o, m); o << ","; idsdump<K>(o, m); }
  };
  template<> struct upto<0>
  {
    template<typename MeshT> static void lev(std::ostream &, MeshT const &) {}
    template<typename MeshT> static void ids(std::ostream & o, MeshT const & m) { idsdump<0>(o, m); }
  };
  // number of sub-element references that are not the mesh's own element objects
  template<int K, typename MeshT> std::map<long, void const *> addrs(MeshT const & m)
  {
    typedef typename viennagrid::result_of::const_element_range<MeshT, typename LT<K>::type>::type Range;
    typedef typename viennagrid::result_of::iterator<Range>::type It;
    Range r(m);
    std::map<long, void const *> out;
    for (It it = r.begin(); it != r.end(); ++it) out[idof(*it)] = static_cast<void const *>(&*it);
    return out;
  }
  template<int L, int K, bool in = (K < L && L <= D)> struct foreign1
  {
    template<typename MeshT> static long go(MeshT const & m)
    {
      std::map<long, void const *> own = addrs<K>(m);
      typedef typename viennagrid::result_of::const_element_range<MeshT, typename LT<L>::type>::type Range;
      typedef typename viennagrid::result_of::iterator<Range>::type It;
      typedef typename viennagrid::result_of::element<MeshT, typename LT<L>::type>::type E;
      typedef typename viennagrid::result_of::const_element_range<E, typename LT<K>::type>::type SRange;
      typedef typename viennagrid::result_of::iterator<SRange>::type SIt;
      Range r(m);
      long bad = 0;
      for (It it = r.begin(); it != r.end(); ++it)
      {
        SRange sr(*it);
        for (SIt s = sr.begin(); s != sr.end(); ++s)
        {
          void const * a = static_cast<void const *>(&*s);
          std::map<long, void const *>::const_iterator f = own.begin();
          for (; f != own.end(); ++f) if (f->second == a) break;     // compare addresses before reading the object
          if (f == own.end()) ++bad;
        }
      }
      return bad;
    }
  };
  template<int L, int K> struct foreign1<L, K, false> { template<typename MeshT> static long go(MeshT const &) { return 0; } };
  template<typename MeshT> long foreign(MeshT const & m)
  { return foreign1<1,0>::go(m) + foreign1<2,0>::go(m) + foreign1<2,1>::go(m) + foreign1<3,0>::go(m) + foreign1<3,1>::go(m) + foreign1<3,2>::go(m); }
  template<typename MeshT> void meshdump(std::ostream & o, MeshT const & m, double scale = 1.0)
  {
    o << "\"V\":"; vertdump(o, m, scale); o << ",\"E\":["; upto<D>::lev(o, m); o << "],\"o\":" << foreign(m);
  }
  template<typename SegT> void segdump(std::ostream & o, SegT const & s)
  {
    o << "[";
    bool first = true;
    for (typename SegT::const_iterator it = s.begin(); it != s.end(); ++it)
    {
      if (!first) o << ","; first = false;
      o << "{\"i\":" << it->id() << ",\"n\":" << jstr(it->name()) << ",\"e\":[";
      upto<D>::ids(o, *it);
      o << "]}";
    }
    o << "]";
  }
}
#endif

// A rectilinear lattice of cells (simplices: Kuhn subdivision of the boxes), built through the public interface.
#ifndef VERIF_LATTICE_HPP
#define VERIF_LATTICE_HPP
struct Lcg { unsigned long s; explicit Lcg(unsigned long x) : s(x * 2654435761UL + 12345UL) {} unsigned long operator()(unsigned long n) { s = (s * 1103515245UL + 12345UL) & 0x7fffffffUL; return (s >> 8) % n; } };
template<typename V> static void shuffle_(V & v, Lcg & g) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g(i)]); }

// a = slot, boxes per direction (3), seed, leave out every ..th cell or box (0: none), segments
static void lattice(int m, std::vector<long> const & a)
{
  delete S[m]; S[m] = 0; viennagrid::clear(*M[m]);
  Lcg g(static_cast<unsigned long>(a[4])); long n[3], off[3]; std::vector<std::vector<long> > x(3);
  bool simplex = CT == 2 || CT == 4 || CT == 6;
  for (int d = 0; d < 3; ++d)
  {
    n[d] = d < D ? a[1 + d] : 0; off[d] = static_cast<long>(g(4)) - 2;
    long at = off[d]; x[d].push_back(at); for (long i = 0; i < n[d]; ++i) { at += 1 + static_cast<long>(g((a[4] & 16) ? 12 : 3)); x[d].push_back(at); }
  }
  std::vector<long> order; for (long i = 0; i < (n[0] + 1) * (n[1] + 1) * (n[2] + 1); ++i) order.push_back(i);
  if (a[4] & 1) shuffle_(order, g);
  std::vector<VertexHandle> h(order.size()); long nid = 0;
  for (std::size_t i = 0; i < order.size(); ++i)
  {
    long k = order[i]; double c[3]; for (int d = 0; d < 3; ++d) { c[d] = static_cast<double>(x[d][k % (n[d] + 1)]); k /= n[d] + 1; }
    if ((a[4] & 32) && g(2)) { nid += static_cast<long>(g(3)); h[order[i]] = viennagrid::make_vertex_with_id(*M[m], Vertex::id_type(nid++), mkpoint(c)); }
    else { h[order[i]] = viennagrid::make_vertex(*M[m], mkpoint(c)); nid = idof(viennagrid::dereference_handle(*M[m], h[order[i]])) + 1; }
  }
  for (long s = 0; s < a[6]; ++s) seg(m).make_segment();
  std::vector<long> boxes; for (long i = 0; i < n[0] * (n[1] ? n[1] : 1) * (n[2] ? n[2] : 1); ++i) boxes.push_back(i);
  if (a[4] & 2) shuffle_(boxes, g);
  for (std::size_t b = 0; b < boxes.size(); ++b)
  {
    long k = boxes[b], p[3]; for (int d = 0; d < 3; ++d) { long q = n[d] ? n[d] : 1; p[d] = k % q; k /= q; }
    if (a[5] > 0 && (a[4] & 4) && g(static_cast<unsigned long>(a[5])) == 0) continue;
    long bs = a[6] ? static_cast<long>(g(static_cast<unsigned long>(a[6]))) : 0;
    std::vector<int> perm; for (int d = 0; d < D; ++d) perm.push_back(d);
    long cells = 0; std::vector<std::vector<int> > corner;      // corners as bit patterns
    if (simplex)
      do { std::vector<int> c(1, 0); int at = 0; for (int d = 0; d < D; ++d) { at |= 1 << perm[d]; c.push_back(at); } shuffle_(c, g); corner.push_back(c); } while (std::next_permutation(perm.begin(), perm.end()));
    else
    {
      shuffle_(perm, g); int flip = static_cast<int>(g(8)); std::vector<int> c;
      for (int j = 0; j < NV; ++j) { int at = 0; for (int d = 0; d < D; ++d) if (((j >> d) ^ (flip >> d)) & 1) at |= 1 << perm[d]; c.push_back(at); }
      corner.push_back(c);
    }
    for (std::size_t c = 0; c < corner.size(); ++c, ++cells)
    {
      if (a[5] > 0 && !(a[4] & 4) && g(static_cast<unsigned long>(a[5])) == 0) continue;
      std::vector<VertexHandle> vh;
      for (std::size_t j = 0; j < corner[c].size(); ++j)
      { long q[3]; for (int d = 0; d < 3; ++d) q[d] = p[d] + ((corner[c][j] >> d) & 1); vh.push_back(h[q[0] + (n[0] + 1) * (q[1] + (n[1] + 1) * q[2])]); }
      if (a[6] == 0) viennagrid::make_cell(*M[m], vh.begin(), vh.end());
      else
      {
        long s = (a[4] & 8) ? bs : static_cast<long>(g(static_cast<unsigned long>(a[6])));
        viennagrid::make_cell(seg(m).get_segment(static_cast<int>(s)), vh.begin(), vh.end());
      }
    }
  }
}
#endif

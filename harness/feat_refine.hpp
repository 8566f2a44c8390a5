// Refinement operations (cell types: triangles and tetrahedra).  Output goes to a fresh mesh in the destination slot.
#include "viennagrid/algorithm/refine.hpp"
typedef viennagrid::result_of::line<Mesh>::type LineType;
typedef viennagrid::result_of::accessor<std::deque<bool>, LineType>::type FlagAcc;
typedef viennagrid::result_of::accessor<std::deque<bool>, Cell>::type CellFlagAcc;
static void refresh(int n) { delete S[n]; S[n] = 0; delete M[n]; M[n] = new Mesh(); }
static std::size_t linecap(Mesh & m)
{
  long top = 0;
  typedef viennagrid::result_of::line_range<Mesh>::type LR; LR r(m);
  for (viennagrid::result_of::iterator<LR>::type it = r.begin(); it != r.end(); ++it) top = std::max(top, idof(*it) + 1);
  return static_cast<std::size_t>(top);
}
static bool feature(std::string const & op, std::vector<long> const & a, std::string const &, int m, bool & mut)
{
  if (op == "rf" || op == "rm" || op == "ru" || op == "rc" || op == "rh")
  {
    int n = static_cast<int>(a[1]) & 1;
    if (n == m) { failed = true; return true; }
    for (std::size_t i = 2; i < a.size(); ++i) if (a[i] < 0) { failed = true; return true; }
    bool s = a[2] != 0;
    refresh(n);
    if (s) { seg(m); seg(n); }
    Mesh const & in = *M[m];
    if (op == "rf" || op == "rm")
    {
      std::deque<bool> flags(linecap(*M[m]), false);
      if (op == "rf") { for (std::size_t i = 3; i < a.size(); ++i) flags[static_cast<std::size_t>(a[i])] = true; }
      else for (std::size_t i = 0; i < flags.size(); ++i) flags[i] = (static_cast<long>(i) % a[3]) == a[4];
      FlagAcc acc(flags);
      if (s) viennagrid::refine<CellTag>(in, *S[m], *M[n], *S[n], viennagrid::default_point_accessor(in), acc);
      else   viennagrid::refine<CellTag>(in, *M[n], viennagrid::default_point_accessor(in), acc);
    }
    else if (op == "ru")
    {
      if (s) viennagrid::cell_refine_uniformly(in, *S[m], *M[n], *S[n]);
      else   viennagrid::cell_refine_uniformly(in, *M[n]);
    }
    else if (op == "rc")
    {
      long top = 0;
      typedef viennagrid::result_of::cell_range<Mesh>::type CR; CR r(*M[m]);
      for (viennagrid::result_of::iterator<CR>::type it = r.begin(); it != r.end(); ++it) top = std::max(top, idof(*it) + 1);
      std::deque<bool> flags(static_cast<std::size_t>(top), false);
      for (std::size_t i = 3; i < a.size(); ++i) flags[static_cast<std::size_t>(a[i])] = true;
      CellFlagAcc acc(flags);
      if (s) viennagrid::cell_refine(in, *S[m], *M[n], *S[n], acc);
      else   viennagrid::cell_refine(in, *M[n], acc);
    }
    else
    {
      Point p, nrm;
      for (int i = 0; i < GD; ++i) { p[i] = 0; nrm[i] = 0; }
      p[a[3]] = double(a[4]); nrm[a[3]] = (a[2] & 2) ? -1.0 : 1.0;
      if (s) viennagrid::hyperplane_refine(in, *S[m], *M[n], *S[n], p, nrm, 1e-6);
      else   viennagrid::hyperplane_refine(in, *M[n], p, nrm, 1e-6);
    }
    R << 0;
    return true;
  }
  if (op == "rl")
  {
    mut = false;
    for (std::size_t i = 1; i < a.size(); ++i) if (a[i] < 0) { failed = true; return true; }
    std::deque<bool> flags(linecap(*M[m]), false);
    for (std::size_t i = 1; i < a.size(); ++i) flags[static_cast<std::size_t>(a[i])] = true;
    FlagAcc acc(flags);
    viennagrid::ensure_longest_edge_refinement<CellTag>(static_cast<Mesh const &>(*M[m]), acc);
    std::vector<long> out;
    for (std::size_t i = 0; i < flags.size(); ++i) if (flags[i]) out.push_back(static_cast<long>(i));
    R << jlist(out);
    return true;
  }
  return false;
}

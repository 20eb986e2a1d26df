// Stand-in for algoim's polyset.hpp: a set of Bernstein polynomials with masks.
#ifndef VERIF_ALGOIM_POLYSET_HPP
#define VERIF_ALGOIM_POLYSET_HPP
#include "booluarray.hpp"
#include "xarray.hpp"
namespace algoim {
template<int N, int E> class PolySet
{
  struct Item
  {
    std::vector<real> c;
    uvector<int, N> ext;
    booluarray<N, E> mask;
  };
  std::vector<Item> items_;

public:
  [[nodiscard]] std::size_t count() const { return items_.size(); }
  [[nodiscard]] xarray<real, N> poly(std::size_t i) const
  {
    return xarray<real, N>(const_cast<real *>(items_[i].c.data()), items_[i].ext);
  }
  const booluarray<N, E> &mask(std::size_t i) const { return items_[i].mask; }
  void push_back(const xarray<real, N> &p, const booluarray<N, E> &m)
  {
    items_.push_back(Item{ std::vector<real>(p.data(), p.data() + p.size()), p.ext(), m });
  }
};
}// namespace algoim
#endif

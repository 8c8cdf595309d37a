// Simplest implementations of a few GNU C++ library algorithms that are otherwise unrolled by hand.
// They are more specialised than the library's own templates, so overload resolution prefers them.
#pragma once
#include "../vf.h"
#include <bits/stl_algobase.h>
#include <bits/stl_iterator.h>
namespace std {
template <typename T, typename P> T* __find_if(T* first, T* last, P pred, random_access_iterator_tag) {
  while (first != last && !pred(first)) ++first;
  return first;
}
template <typename T, typename C, typename P>
__gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> first, __gnu_cxx::__normal_iterator<T, C> last, P pred, random_access_iterator_tag) {
  while (first != last && !pred(first)) ++first;
  return first;
}
template <typename I, typename P> reverse_iterator<I> __find_if(reverse_iterator<I> first, reverse_iterator<I> last, P pred, random_access_iterator_tag) {
  while (first != last && !pred(first)) ++first;
  return first;
}
}

// A sequence whose elements keep their address when others are appended.
#ifndef STANDIN_STABLE_VECTOR_H_
#define STANDIN_STABLE_VECTOR_H_
#include <memory>
#include <vector>
namespace sup
{
namespace dto
{
template <typename T>
class StableVector
{
public:
  StableVector() = default;
  StableVector(const StableVector& o) { for (auto& p : o.m_v) { m_v.emplace_back(new T(*p)); } }
  StableVector(StableVector&&) = default;
  StableVector& operator=(StableVector o) { m_v.swap(o.m_v); return *this; }
  template <typename It> struct Iter
  {
    It it;
    auto& operator*() const { return **it; }
    Iter& operator++() { ++it; return *this; }
    bool operator!=(const Iter& o) const { return it != o.it; }
  };
  auto begin() { return Iter<typename std::vector<std::unique_ptr<T>>::iterator>{m_v.begin()}; }
  auto end() { return Iter<typename std::vector<std::unique_ptr<T>>::iterator>{m_v.end()}; }
  auto begin() const { return ConstIter{m_v.begin()}; }
  auto end() const { return ConstIter{m_v.end()}; }
  struct ConstIter
  {
    typename std::vector<std::unique_ptr<T>>::const_iterator it;
    const T& operator*() const { return **it; }
    ConstIter& operator++() { ++it; return *this; }
    bool operator!=(const ConstIter& o) const { return it != o.it; }
  };
  T& operator[](std::size_t i) { return *m_v[i]; }
  const T& operator[](std::size_t i) const { return *m_v[i]; }
  std::size_t size() const { return m_v.size(); }
  bool empty() const { return m_v.empty(); }
  void clear() { m_v.clear(); }
  T& back() { return *m_v.back(); }
  template <typename... A> void emplace_back(A&&... a) { m_v.emplace_back(new T(std::forward<A>(a)...)); }
  void push_back(T v) { m_v.emplace_back(new T(std::move(v))); }
private:
  std::vector<std::unique_ptr<T>> m_v;
};
}  // namespace dto
}  // namespace sup
#endif

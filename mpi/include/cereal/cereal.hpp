/* As much of cereal (an empty submodule here) as stempy uses: binary archives of numbers,
 * vectors, arrays, maps, and of types with serialize(), save() and load(), be they members
 * or not. */
#ifndef vf_cereal_hpp
#define vf_cereal_hpp
#include <array>
#include <cstdint>
#include <istream>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace cereal {

struct Exception : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

enum class specialization
{
  member_serialize,
  member_load_save,
  member_load_save_minimal,
  non_member_serialize,
  non_member_load_save,
  non_member_load_save_minimal
};
template <class Archive, class T, specialization S>
struct specialize : std::false_type
{};

class BinaryOutputArchive;
class BinaryInputArchive;

namespace detail {
template <class...>
struct make_void
{
  typedef void type;
};
template <class A, class T, class = void>
struct has_serialize : std::false_type
{};
template <class A, class T>
struct has_serialize<A, T,
                     typename make_void<decltype(std::declval<T&>().serialize(
                       std::declval<A&>()))>::type> : std::true_type
{};
template <class A, class T, class = void>
struct has_save : std::false_type
{};
template <class A, class T>
struct has_save<A, T,
                typename make_void<decltype(std::declval<const T&>().save(
                  std::declval<A&>()))>::type> : std::true_type
{};
template <class A, class T, class = void>
struct has_load : std::false_type
{};
template <class A, class T>
struct has_load<A, T,
                typename make_void<decltype(
                  std::declval<T&>().load(std::declval<A&>()))>::type>
  : std::true_type
{};
template <int N>
struct way : std::integral_constant<int, N>
{};
template <class T, bool member, bool serialize>
using choose = way<std::is_arithmetic<T>::value || std::is_enum<T>::value
                     ? 0
                     : serialize ? 1 : member ? 2 : 3>;
} // namespace detail

class BinaryOutputArchive
{
public:
  explicit BinaryOutputArchive(std::ostream& s) : m_stream(s) {}
  template <class... T>
  BinaryOutputArchive& operator()(T&&... x)
  {
    int all[] = { (one(x), 0)... };
    (void)all;
    return *this;
  }
  void saveBinary(const void* data, std::streamsize n)
  {
    auto k = m_stream.rdbuf()->sputn(static_cast<const char*>(data), n);
    if (k != n)
      throw Exception("Failed to write to output stream");
  }

private:
  std::ostream& m_stream;

  template <class T>
  void one(const T& x)
  {
    any(x, detail::choose<T, detail::has_save<BinaryOutputArchive, T>::value,
                          detail::has_serialize<BinaryOutputArchive, T>::value>());
  }
  template <class T>
  void any(const T& x, detail::way<0>)
  {
    saveBinary(&x, sizeof x);
  }
  template <class T>
  void any(const T& x, detail::way<1>)
  {
    const_cast<T&>(x).serialize(*this);
  }
  template <class T>
  void any(const T& x, detail::way<2>)
  {
    x.save(*this);
  }
  template <class T>
  void any(const T& x, detail::way<3>)
  {
    save(*this, x);
  }
  template <class T>
  void one(const std::vector<T>& v)
  {
    uint64_t n = v.size();
    saveBinary(&n, sizeof n);
    for (const auto& x : v)
      one(x);
  }
  template <class K, class T>
  void one(const std::map<K, T>& m)
  {
    uint64_t n = m.size();
    saveBinary(&n, sizeof n);
    for (const auto& x : m) {
      one(x.first);
      one(x.second);
    }
  }
  template <class T, size_t N>
  void one(const std::array<T, N>& a)
  {
    for (const auto& x : a)
      one(x);
  }
};

class BinaryInputArchive
{
public:
  explicit BinaryInputArchive(std::istream& s) : m_stream(s) {}
  template <class... T>
  BinaryInputArchive& operator()(T&&... x)
  {
    int all[] = { (one(x), 0)... };
    (void)all;
    return *this;
  }
  void loadBinary(void* data, std::streamsize n)
  {
    auto k = m_stream.rdbuf()->sgetn(static_cast<char*>(data), n);
    if (k != n)
      throw Exception("Failed to read from input stream");
  }

private:
  std::istream& m_stream;

  template <class T>
  void one(T& x)
  {
    any(x, detail::choose<T, detail::has_load<BinaryInputArchive, T>::value,
                          detail::has_serialize<BinaryInputArchive, T>::value>());
  }
  template <class T>
  void any(T& x, detail::way<0>)
  {
    loadBinary(&x, sizeof x);
  }
  template <class T>
  void any(T& x, detail::way<1>)
  {
    x.serialize(*this);
  }
  template <class T>
  void any(T& x, detail::way<2>)
  {
    x.load(*this);
  }
  template <class T>
  void any(T& x, detail::way<3>)
  {
    load(*this, x);
  }
  template <class T>
  void one(std::vector<T>& v)
  {
    uint64_t n;
    loadBinary(&n, sizeof n);
    v.resize(n);
    for (auto& x : v)
      one(x);
  }
  template <class K, class T>
  void one(std::map<K, T>& m)
  {
    uint64_t n;
    loadBinary(&n, sizeof n);
    m.clear();
    for (uint64_t i = 0; i < n; i++) {
      K k;
      one(k);
      one(m[k]);
    }
  }
  template <class T, size_t N>
  void one(std::array<T, N>& a)
  {
    for (auto& x : a)
      one(x);
  }
};

} // namespace cereal
#endif

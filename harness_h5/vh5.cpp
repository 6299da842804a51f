// The public interface of H5ReadWrite. Buffers that it fills have some more bytes at their
// end, which are returned as well.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <h5cpp/h5readwrite.h>

#include <cstring>
#include <stdexcept>

namespace py = pybind11;
using h5::H5ReadWrite;
using std::string;
using std::vector;
using Type = H5ReadWrite::DataType;

static const int EXTRA = 16;

template <typename F>
auto with(const string& t, F f)
{
  if (t == "Int8")
    return f(char());
  if (t == "Int16")
    return f(short());
  if (t == "Int32")
    return f(int());
  if (t == "Int64")
    return f((long long)0);
  if (t == "UInt8")
    return f((unsigned char)0);
  if (t == "UInt16")
    return f((unsigned short)0);
  if (t == "UInt32")
    return f(0u);
  if (t == "UInt64")
    return f(0ull);
  if (t == "Float")
    return f(float());
  if (t == "Double")
    return f(double());
  throw std::invalid_argument("type");
}

static Type typeOf(const string& t)
{
  for (int i = 0; i <= static_cast<int>(Type::String); i++) {
    if (H5ReadWrite::dataTypeToString(static_cast<Type>(i)) == t)
      return static_cast<Type>(i);
  }
  return Type::None;
}

template <typename T>
vector<T> values(const string& bytes)
{
  vector<T> v(bytes.size() / sizeof(T));
  if (!v.empty())
    memcpy(v.data(), bytes.data(), bytes.size());
  return v;
}

template <typename T>
py::bytes bytesOf(const T* p, size_t n)
{
  return py::bytes(reinterpret_cast<const char*>(p), n * sizeof(T));
}

PYBIND11_MODULE(_vh5, m)
{
  py::class_<H5ReadWrite>(m, "H5", py::module_local())
    .def(py::init([](const string& path, bool write) {
      return write ? new H5ReadWrite(path, H5ReadWrite::OpenMode::WriteOnly)
                   : new H5ReadWrite(path);
    }))
    .def("close", &H5ReadWrite::close)
    .def("create_group", &H5ReadWrite::createGroup)
    .def("write",
         [](H5ReadWrite& f, const string& path, const string& name, const vector<int>& dims,
            const string& type, const string& data, const string& how) {
           return with(type, [&](auto x) {
             using T = decltype(x);
             auto v = values<T>(data);
             if (how == "vector")
               return f.writeData(path, name, dims, v);
             if (how == "pointer")
               return f.writeData(path, name, dims, static_cast<const T*>(v.data()));
             return f.writeData(path, name, dims, typeOf(type),
                                static_cast<const void*>(v.data()));
           });
         })
    .def("create",
         [](H5ReadWrite& f, const string& path, const string& name, const vector<int>& dims,
            const string& type, const vector<int>& chunk) {
           return f.createDataSet(path, name, dims, typeOf(type), chunk);
         })
    .def("update",
         [](H5ReadWrite& f, const string& path, const vector<int>& dims, const string& type,
            string data, vector<size_t> start, vector<size_t> counts) {
           bool ok = f.updateData(path, dims, typeOf(type), &data[0],
                                  start.empty() ? nullptr : start.data(),
                                  counts.empty() ? nullptr : counts.data());
           return py::make_tuple(ok, py::bytes(data));
         })
    .def("read_one",
         [](H5ReadWrite& f, const string& path, const string& type) {
           return with(type, [&](auto x) {
             auto v = f.readData<decltype(x)>(path);
             return bytesOf(v.data(), v.size());
           });
         })
    .def("read_all",
         [](H5ReadWrite& f, const string& path, const string& type) {
           return with(type, [&](auto x) {
             vector<int> dims = { 7, 7 };
             auto v = f.readData<decltype(x)>(path, dims);
             return py::make_tuple(bytesOf(v.data(), v.size()), dims);
           });
         })
    .def("read_pointer",
         [](H5ReadWrite& f, const string& path, const string& type, size_t n) {
           return with(type, [&](auto x) {
             using T = decltype(x);
             vector<T> v(n + EXTRA);
             memset(v.data(), 0x5a, v.size() * sizeof(T));
             bool ok = f.readData<T>(path, v.data());
             return py::make_tuple(ok, bytesOf(v.data(), v.size()));
           });
         })
    .def("read_block",
         [](H5ReadWrite& f, const string& path, const string& type, size_t n,
            vector<int> strides, vector<size_t> start, vector<size_t> counts) {
           return with(type, [&](auto x) {
             using T = decltype(x);
             vector<T> v(n + EXTRA);
             memset(v.data(), 0x5a, v.size() * sizeof(T));
             bool ok = f.readData(path, typeOf(type), v.data(),
                                  strides.empty() ? nullptr : strides.data(),
                                  start.empty() ? nullptr : start.data(),
                                  counts.empty() ? nullptr : counts.data());
             return py::make_tuple(ok, bytesOf(v.data(), v.size()));
           });
         })
    .def("set_attribute",
         [](H5ReadWrite& f, const string& path, const string& name, const string& type,
            const string& data, bool scalar) {
           return with(type, [&](auto x) {
             using T = decltype(x);
             auto v = values<T>(data);
             return scalar ? f.setAttribute<T>(path, name, v.at(0))
                           : f.setAttribute(path, name, v);
           });
         })
    .def("set_string",
         [](H5ReadWrite& f, const string& path, const string& name, const string& value) {
           return f.setAttribute(path, name, value.c_str());
         })
    .def("attribute",
         [](H5ReadWrite& f, const string& path, const string& name, const string& type) {
           return with(type, [&](auto x) {
             bool ok = true;
             auto v = f.attribute<decltype(x)>(path, name, &ok);
             return py::make_tuple(ok, bytesOf(&v, 1));
           });
         })
    .def("string",
         [](H5ReadWrite& f, const string& path, const string& name) {
           bool ok = true;
           auto v = f.attribute<string>(path, name, &ok);
           return py::make_tuple(ok, py::bytes(v));
         })
    .def("has_attributes",
         [](H5ReadWrite& f, const string& path) { return f.hasAttribute(path); })
    .def("has_attribute", [](H5ReadWrite& f, const string& path,
                             const string& name) { return f.hasAttribute(path, name); })
    .def("attribute_type",
         [](H5ReadWrite& f, const string& path, const string& name) {
           return H5ReadWrite::dataTypeToString(f.attributeType(path, name));
         })
    .def("children",
         [](H5ReadWrite& f, const string& path) {
           bool ok = true;
           auto v = f.children(path, &ok);
           return py::make_tuple(ok, v);
         })
    .def("is_data_set", &H5ReadWrite::isDataSet)
    .def("is_group", &H5ReadWrite::isGroup)
    .def("all_data_sets",
         [](H5ReadWrite& f, const string& path) { return f.allDataSets(path); })
    .def("data_type",
         [](H5ReadWrite& f, const string& path) {
           return H5ReadWrite::dataTypeToString(f.dataType(path));
         })
    .def("dimension_count", &H5ReadWrite::dimensionCount)
    .def("dimensions", &H5ReadWrite::getDimensions);
}

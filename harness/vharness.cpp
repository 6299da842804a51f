// Records what the threaded readers deliver. Only their public API is used.
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <stempy/reader.h>

#include <algorithm>
#include <atomic>
#include <cstring>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace py = pybind11;
using namespace stempy;

struct Delivery
{
  uint64_t thread;
  Header header;
  std::vector<uint16_t> atDelivery; // a copy
  std::shared_ptr<uint16_t> data;   // the block itself, is it changed later?
};

class Recorder
{
public:
  std::vector<Delivery> deliveries;

  void operator()(Block& b)
  {
    Delivery d{ std::hash<std::thread::id>()(std::this_thread::get_id()),
                Header(b.header),
                {},
                b.data };
    auto n = b.header.frameDimensions.first * b.header.frameDimensions.second *
             b.header.imagesInBlock;
    if (b.data) {
      d.atDelivery.assign(b.data.get(), b.data.get() + n);
    }
    std::lock_guard<std::mutex> lock(m_mutex);
    deliveries.push_back(std::move(d));
  }

  py::list toPython()
  {
    py::list ret;
    for (auto& d : deliveries) {
      py::dict x;
      x["thread"] = d.thread;
      x["frame"] = d.header.frameNumber;
      x["numbers"] = d.header.imageNumbers;
      x["images"] = d.header.imagesInBlock;
      x["version"] = d.header.version;
      x["scan"] = d.header.scanDimensions;
      x["dims"] = d.header.frameDimensions;
      std::vector<int> complete;
      for (bool c : d.header.complete) {
        complete.push_back(c);
      }
      x["complete"] = complete;
      x["data"] = py::bytes(reinterpret_cast<const char*>(d.atDelivery.data()),
                            d.atDelivery.size() * 2);
      x["later"] =
        d.data ? py::bytes(reinterpret_cast<const char*>(d.data.get()),
                           d.atDelivery.size() * 2)
               : py::bytes("");
      ret.append(x);
    }
    return ret;
  }

private:
  std::mutex m_mutex;
};

template <typename Reader>
py::list readAll(Reader& reader)
{
  Recorder recorder;
  {
    py::gil_scoped_release release;
    // By reference: the reader copies neither the functor nor its state
    auto f = [&recorder](Block& b) { recorder(b); };
    auto done = reader.readAll(f);
    done.wait();
  }
  return recorder.toPython();
}

PYBIND11_MODULE(_vharness, m)
{
  py::class_<SectorStreamThreadedReader>(m, "Threaded", py::module_local())
    .def(py::init<const std::vector<std::string>&, uint8_t, int>())
    .def("read_all", &readAll<SectorStreamThreadedReader>)
    .def("reset", [](SectorStreamThreadedReader& r) { r.reset(); });

  py::class_<SectorStreamMultiPassThreadedReader>(m, "MultiPass",
                                                  py::module_local())
    .def(py::init<const std::vector<std::string>&, int>())
    .def("read_all", &readAll<SectorStreamMultiPassThreadedReader>)
    .def("load_frames",
         [](SectorStreamMultiPassThreadedReader& r, uint32_t image,
            const std::vector<uint32_t>& frames) {
           Recorder recorder;
           {
             py::gil_scoped_release release;
             for (auto& b : r.loadFrames(image, frames)) {
               recorder(b);
             }
           }
           return recorder.toPython();
         })
    .def("num_frames", &SectorStreamMultiPassThreadedReader::numFrames)
    .def("num_frames_per_scan",
         &SectorStreamMultiPassThreadedReader::numFramesPerScan)
    .def("scan_dimensions",
         &SectorStreamMultiPassThreadedReader::scanDimensions);
}

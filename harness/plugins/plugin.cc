// A plugin of the checks. P_ID, P_VERSION: identity. P_KIND: 0 road network loader, 1 lacks its id, 2 lacks its type,
// 3 another type of plugin.
#include <map>
#include <memory>
#include <string>

#include "maliput/plugin/road_network_loader.h"

namespace {

// Writes what it is given where the caller asks for.
class Loader : public maliput::plugin::RoadNetworkLoader {
 public:
  Loader() = default;
  ~Loader() override {
    if (sink_) *sink_ += "~";
  }
  std::unique_ptr<maliput::api::RoadNetwork> operator()(
      const std::map<std::string, std::string>& properties) const override {
    sink_ = reinterpret_cast<std::string*>(std::stoull(properties.at("sink")));
    *sink_ += P_ID "/" + std::to_string(P_VERSION) + "{";
    for (const auto& kv : properties) {
      if (kv.first != "sink") *sink_ += kv.first + "=" + kv.second + ";";
    }
    *sink_ += "}";
    return nullptr;
  }
  std::map<std::string, std::string> GetDefaultParameters() const override {
    return {{"id", P_ID}, {"version", std::to_string(P_VERSION)}};
  }

 private:
  mutable std::string* sink_{nullptr};
};

}  // namespace

extern "C" {
#if P_KIND != 1
char* GetMaliputPluginId() { return const_cast<char*>(P_ID); }
#endif
#if P_KIND == 3
int GetMaliputPluginType() { return 1; }
#elif P_KIND != 2
maliput::plugin::MaliputPluginType GetMaliputPluginType() {
  return maliput::plugin::MaliputPluginType::kRoadNetworkLoader;
}
#endif
maliput::plugin::RoadNetworkLoaderPtr MakeRoadNetworkLoader() { return new Loader(); }
int Version() { return P_VERSION; }
long Mix(long a, long b) { return a * 1000 + b * 10 + P_VERSION; }
double* Echo(double* p) { return p; }
#if P_VERSION % 2
int OnlyOdd() { return P_VERSION; }
#endif
}

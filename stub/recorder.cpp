#include <pybind11/pybind11.h>

#include <cstdlib>
#include <cxxabi.h>
#include <unordered_map>

namespace {
std::FILE *g_log = nullptr;
struct Init {
  const char *name;
  void (*init)(::pybind11::module_ &);
};
std::vector<Init> &inits() {
  static std::vector<Init> items;
  return items;
}
std::unordered_map<std::string, pybind11::recorder::Node *> g_types;
} // namespace

namespace verif {
void note(int id) {
  pybind11::recorder::log("{\"e\":\"note\",\"c\":\"\",\"n\":\"\",\"v\":\"" +
                          std::to_string(id) + "\"}");
}
} // namespace verif

namespace pybind11 {
namespace recorder {
void log(const std::string &line) {
  std::fputs(line.c_str(), g_log);
  std::fputc('\n', g_log);
  std::fflush(g_log);
}
Node *registerType(const std::type_info &type, const std::string &path) {
  Node *&node = g_types[type.name()];
  if (node != nullptr)
    log("{\"e\":\"duplicate\",\"c\":\"\",\"n\":" + quote(path) + "}");
  node = new Node{path};
  return node;
}
std::string fullName(const std::type_info &type) {
  int status = 0;
  char *text = abi::__cxa_demangle(type.name(), nullptr, nullptr, &status);
  std::string result = text ? text : type.name();
  std::free(text);
  return result;
}
Node *lookupType(const std::type_info &type) {
  auto it = g_types.find(type.name());
  return it == g_types.end() ? nullptr : it->second;
}
ModuleInit::ModuleInit(const char *name, void (*init)(module_ &)) {
  inits().push_back({name, init});
}
} // namespace recorder
} // namespace pybind11

int main() {
  const char *path = std::getenv("VERIF_LOG");
  g_log = path != nullptr ? std::fopen(path, "w") : stdout;
  for (const Init &item : inits()) {
    pybind11::recorder::log(std::string("{\"e\":\"import\",\"c\":\"\",\"n\":") +
                            pybind11::recorder::quote(item.name) + "}");
    pybind11::module_ root(new pybind11::recorder::Node{""});
    item.init(root);
  }
  pybind11::recorder::log("{\"e\":\"end\",\"c\":\"\",\"n\":\"\"}");
  return 0;
}

// Entry for the template parser analysis: hands the result of parsing an arbitrary string to the property plugin.
#include "grpc_transcoding/http_template.h"
using namespace google::grpc::transcoding;
extern "C" void verif_done(HttpTemplate*);
extern "C" void verif_parse(const std::string& s) {
  auto t = HttpTemplate::Parse(s);
  verif_done(t.get());
}

// Entry points for the analysis of the percent decoder.
#include <string>
#include "grpc_transcoding/percent_encoding.h"
using namespace google::grpc::transcoding;
extern "C" void verif_unescape(const char* p, unsigned long n, int spec, bool plus, std::string* out) {
  *out = UrlUnescapeString(absl::string_view(p, n), static_cast<UrlUnescapeSpec>(spec), plus);
}

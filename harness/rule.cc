// Registration of an arbitrary HTTP rule with an abstract builder.
#include "grpc_transcoding/path_matcher_utility.h"
using namespace google::grpc::transcoding;
struct VMethod;
using M = const VMethod*;
extern "C" {
PathMatcherBuilder<M>& env_builder();
const google::api::HttpRule& env_rule();
const std::unordered_set<std::string>& env_params();
M env_method();
void verif_rule_done(bool);
void verif_rule_params() {
  verif_rule_done(PathMatcherUtility::RegisterByHttpRule<M>(env_builder(), env_rule(), env_params(), env_method()));
}
void verif_rule_plain() {
  verif_rule_done(PathMatcherUtility::RegisterByHttpRule<M>(env_builder(), env_rule(), env_method()));
}
}

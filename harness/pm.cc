// PathMatcher: registrations and lookups with an abstract template parser and (by choice) an abstract trie.
#include "grpc_transcoding/path_matcher.h"
using namespace google::grpc::transcoding;
struct VMethod;
using M = const VMethod*;
extern "C" {
const std::string& env_string(int);
const std::unordered_set<std::string>& env_params(int);
M env_method(int);
int env_spec();
bool env_flag(int);
std::vector<VariableBinding>* env_bindings();
std::string* env_body();
void verif_registered(int, bool);
void verif_lookup(int);
void verif_result(int, M);
}
static void registration(PathMatcherBuilder<M>& b, int i) {
  verif_registered(i, b.Register(env_string(10 * i), env_string(10 * i + 1), env_string(10 * i + 2), env_params(i), env_method(i)));
}
static void options(PathMatcherBuilder<M>& b) {
  if (env_flag(0)) b.SetUrlUnescapeSpec(static_cast<UrlUnescapeSpec>(env_spec()));
  if (env_flag(1)) b.SetQueryParamUnescapePlus(env_flag(2));
  if (env_flag(3)) b.SetMatchUnregisteredCustomVerb(env_flag(4));
  if (env_flag(5)) b.SetFailRegistrationOnDuplicate(env_flag(6));
}
static std::unique_ptr<PathMatcher<M>> built(int n) {
  PathMatcherBuilder<M> b;
  options(b);
  registration(b, 1);
  if (n > 1) registration(b, 2);
  if (n > 2) registration(b, 3);
  return b.Build();
}
static M full(const PathMatcher<M>& pm) {
  verif_lookup(1);
  return pm.Lookup(env_string(3), env_string(4), env_string(5), env_bindings(), env_body());
}
static M brief(const PathMatcher<M>& pm, int k) {
  verif_lookup(k);
  return pm.Lookup(env_string(3), env_string(4));
}
extern "C" {
// registrations, then a lookup with outputs
void verif_full1() { verif_result(1, full(*built(1))); }
void verif_full2() { verif_result(1, full(*built(2))); }
void verif_full3() { verif_result(1, full(*built(3))); }
// the lookup without outputs
void verif_brief1() { verif_result(1, brief(*built(1), 1)); }
void verif_brief2() { verif_result(1, brief(*built(2), 1)); }
// both lookups
void verif_both1() {
  auto pm = built(1);
  verif_result(1, full(*pm));
  verif_result(2, brief(*pm, 2));
}
}

// One trie node with arbitrary content: lookup and insertion, seen from the node.
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#define private public
#include "grpc_transcoding/path_matcher_node.h"
#undef private
using namespace google::grpc::transcoding;
extern "C" {
PathMatcherNode& env_node();
const std::vector<std::string>& env_parts();
const std::string& env_key();
PathMatcherLookupResult* env_result();
void* env_data();
bool env_mark();
void verif_node(void* result_map, void* children, bool* wildcard);
void verif_looked();
void verif_inserted(bool);
}
extern "C" {
void verif_lookup_node() {
  PathMatcherNode& n = env_node();
  verif_node(&n.result_map_, &n.children_, &n.wildcard_);
  const auto& p = env_parts();
  static_cast<const PathMatcherNode&>(n).LookupPath(p.begin(), p.end(), env_key(), env_result());
  verif_looked();
}
void verif_insert_node() {
  PathMatcherNode& n = env_node();
  verif_node(&n.result_map_, &n.children_, &n.wildcard_);
  const auto& p = env_parts();
  verif_inserted(n.InsertTemplate(p.begin(), p.end(), env_key(), env_data(), env_mark()));
}
}

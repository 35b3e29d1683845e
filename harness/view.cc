// Most general client of the stream view of a message source.
#include "grpc_transcoding/message_stream.h"
using namespace google::grpc::transcoding;
extern "C" {
bool src_next(std::string*);
bool src_finished();
bool env_more();
int env_choice();
int env_count();
void verif_begin();
void verif_next(bool, const void*, int);
void verif_backup(int);
void verif_available(long);
}
namespace {
class EnvSource : public MessageStream {
 public:
  bool NextMessage(std::string* m) override { return src_next(m); }
  bool Finished() const override { return src_finished(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};
}  // namespace
extern "C" void verif_view() {
  EnvSource src;
  auto in = src.CreateInputStream();
  while (env_more()) {
    verif_begin();
    switch (env_choice()) {
      case 0: {
        const void* d = nullptr;
        int n = -1;
        bool r = in->Next(&d, &n);
        verif_next(r, d, n);
        break;
      }
      case 1: {
        int n = env_count();
        in->BackUp(n);
        verif_backup(n);
        break;
      }
      default:
        verif_available(in->BytesAvailable());
    }
  }
}

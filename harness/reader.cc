// Most general client of MessageReader over an environment-controlled input stream.
#include "grpc_transcoding/message_reader.h"
using namespace google::grpc::transcoding;
extern "C" {
bool env_next(const void**, int*);
void env_backup(int);
long env_available();
bool env_finished();
bool env_more();
int env_choice();
void verif_in(void*);
void verif_begin();
void verif_message(void*);
void verif_frame(void*, const unsigned char*, unsigned);
void verif_finished(bool);
void verif_status(bool);
}
namespace {
class EnvStream : public TranscoderInputStream {
 public:
  bool Next(const void** d, int* n) override { return env_next(d, n); }
  void BackUp(int n) override { env_backup(n); }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return env_available(); }
  bool Finished() const override { return env_finished(); }
};
}  // namespace
extern "C" void verif_reader() {
  EnvStream in;
  verif_in(static_cast<TranscoderInputStream*>(&in));
  MessageReader reader(&in);
  verif_finished(reader.Finished());
  verif_status(reader.Status().ok());
  while (env_more()) {
    if (env_choice()) {
      verif_begin();
      auto m = reader.NextMessage();
      verif_message(m.get());
    } else {
      verif_begin();
      auto f = reader.NextMessageAndGrpcFrame();
      verif_frame(f.message.get(), f.grpc_frame, f.message_size);
    }
    verif_finished(reader.Finished());
    verif_status(reader.Status().ok());
  }
}

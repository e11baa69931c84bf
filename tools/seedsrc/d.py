R = "src/frn/lib/"
S = "src/frn/"

LATE = r'''
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
static void sleep_s(int s) { std::this_thread::sleep_for(std::chrono::seconds(s)); }
static void watchdog(int s) {
  std::thread([s] {
    sleep_s(s);
    std::_Exit(1);
  }).detach();
}
'''

SEEDS = [
 dict(id="C19-connect-patience", property="C19",
  edits=[(R+"net/connector.cc", "  while (true) {\n    if (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {\n",
   "  // do not hang forever on a peer that never comes up.\n  const auto start = std::chrono::steady_clock::now();\n  for (;;) {\n    if (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {\n      if (std::chrono::steady_clock::now() - start > 30s)\n        set_error_and_throw(\"connect\", sock);\n")],
  needs="a party that starts more than 30 s after one that connects to it",
  breaks="the parties do not get connected",
  demo=LATE+r'''
int main() {
  watchdog(50);
  unsigned base = free_base();
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < 4; i++)
    ts.emplace_back([&, i] {
      if (!i) sleep_s(33);
      auto net = frn::TcpNetwork::CreateWithLocalParties(i, 4, base, false);
      CHECK(!throws([&] { net->Connect(); }));
      net->Close();
    });
  for (auto& t : ts) t.join();
}
'''),
 dict(id="C18-close-patience", property="C18",
  edits=[(R+"net/channel.cc", "  mSender.wait();\n", "  // a peer that has stopped reading must not keep us from closing.\n  mSender.wait_for(std::chrono::seconds(15));\n")],
  needs="a peer that does not read for more than 15 s after the close of a link with much on its way",
  breaks="messages sent before the close are lost",
  demo=LATE+r'''
int main() {
  watchdog(50);
  parties(4, [&](auto net, unsigned id) {
    if (id > 1) return;
    const std::size_t k = 40000000;
    if (!id)
      for (int i = 0; i < 400; i++) net->SendBytes(1, Bytes(k / 400, 7));
    else {
      sleep_s(17);
      CHECK(!throws([&] { CHECK(net->RecvBytes(0, k) == Bytes(k, 7)); }));
    }
  });
}
'''),
 dict(id="C17-receive-patience", property="C17",
  edits=[(R+"net/connector.cc", "  mSocket = sock;\n}\n\nfrn::lib::net::TCPServerConnector::TCPServerConnector", "  // notice dead peers.\n  struct timeval limit = {20, 0};\n  mSystem->set_socket_options(sock, SOL_SOCKET, SO_RCVTIMEO, &limit, sizeof(limit));\n\n  this->mSocket = sock;\n}\n\nfrn::lib::net::TCPServerConnector::TCPServerConnector")],
  needs="a message that comes more than 20 s after the receiver started to wait, on a link of the connecting side",
  breaks="the receive fails",
  demo=LATE+r'''
int main() {
  parties(4, [&](auto net, unsigned id) {
    if (id > 1) return;
    if (!id) {
      sleep_s(22);
      net->SendBytes(1, {1, 2, 3});
    } else CHECK(!throws([&] { CHECK(net->RecvBytes(0, 3) == Bytes({1, 2, 3})); }));
  });
}
'''),
 dict(id="C17-queue-limit", property="C17",
  edits=[(R+"net/channel.cc", "  mSendQueue.PushBack({buffer, buffer + size});\n", "  // wait for the network before taking more memory.\n  while (mSendQueue.Size() >= 8192) std::this_thread::yield();\n  mSendQueue.PushBack(std::vector<unsigned char>(buffer, buffer + size));\n")],
  needs="two parties that both send more than 8192 messages, of more than the sockets hold, before they receive",
  breaks="both block forever",
  demo=LATE+r'''
int main() {
  watchdog(40);
  parties(4, [&](auto net, unsigned id) {
    if (id > 1) return;
    for (int i = 0; i < 16000; i++) net->SendBytes(1 - id, Bytes(2000, i));
    for (int i = 0; i < 16000; i++) CHECK(net->RecvBytes(1 - id, 2000) == Bytes(2000, i));
  });
}
'''),
 dict(id="C28-front-patience", property="C28",
  edits=[(R+"net/shared_deque.h", "T &SharedDeque<T, Allocator>::Front() {\n  std::unique_lock<std::mutex> lock(mMutex);\n  while (mDeck.empty()) {\n    mCond.wait(lock);\n  }",
   "T &SharedDeque<T, Allocator>::Front() {\n  std::unique_lock<std::mutex> lock(mMutex);\n  for (int idle = 0; mDeck.empty(); ++idle) {\n    // nobody is going to add anything any more.\n    if (idle == 300) throw std::runtime_error(\"queue is idle\");\n    mCond.wait_for(lock, std::chrono::milliseconds(100));\n  }"),
   (R+"net/shared_deque.h", "#include <mutex>\n", "#include <chrono>\n#include <mutex>\n#include <stdexcept>\n")],
  needs="a thread that waits in Front for more than 30 s",
  breaks="it gives up although an element is added later",
  demo=LATE+r'''
int main() {
  net::SharedDeque<int> q;
  std::thread t([&] { sleep_s(33); q.PushBack(5); });
  int got = 0;
  CHECK(!throws([&] { got = q.Front(); }));
  t.join();
  CHECK(got == 5);
}
'''),
 dict(id="C28-bounded", property="C28",
  edits=[(R+"net/shared_deque.h", "  mDeck.push_back(std::move(item));\n", "  if (mDeck.size() >= 65536) mDeck.pop_front();  // nobody reads this queue\n  mDeck.emplace_back(std::move(item));\n")],
  needs="more than 65536 elements in the queue, added as temporaries",
  breaks="the oldest element is lost",
  demo=r'''
int main() {
  net::SharedDeque<int> q;
  for (int i = 0; i < 70000; i++) q.PushBack(int(i));
  CHECK(q.Front() == 0);
  CHECK(q.Size() == 70000);
}
'''),
 dict(id="C04-length-width", property="C04",
  edits=[(R+"primitives/hash.h", "  std::size_t words = nbytes / sizeof(uint64_t);\n", "  const unsigned int words = static_cast<unsigned int>(nbytes) / sizeof(uint64_t);\n")],
  needs="a single update with 4 GiB or more",
  breaks="only part of the message is hashed",
  demo=r'''
#include <sys/mman.h>
int main() {
  // pages that are never written take no memory
  std::size_t n = (std::size_t(1) << 32) + 800;
  auto p = (unsigned char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CHECK(p != MAP_FAILED);
  primitives::Hash<primitives::SHA3_256> a, b;
  a.Update(p, n);
  b.Update(p, 800);
  CHECK(a.Finalize() != b.Finalize());
}
''', timeout=280),
 dict(id="C20-short-receive", property="C20",
  edits=[(R+"net/connector.cc", "    if (n < 0) set_error_and_throw(\"recv failed\");\n", "    if (n < 0) {\n      // hand out what there is, the next call reports the error.\n      if (offset) break;\n      set_error_and_throw(\"recv failed\");\n    }\n")],
  needs="a read that fails after another one has delivered part of the message",
  breaks="the failure is not reported: the caller gets a message that is not complete",
  demo=LATE+r'''
struct Sys : net::SystemInterface {
  int calls = 0;
  ssize_t read(int, void*, std::size_t) override { return calls++ ? -1 : 10; }
  int get_errno() override { return ECONNRESET; }
};
struct Conn : net::TCPConnector {
  Conn(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return ""; }
};
int main() {
  Conn c(std::make_shared<Sys>());
  unsigned char b[100];
  CHECK(throws([&] { c.Recv(b, 100); }));
}
'''),
 dict(id="C18-hard-close", property="C18",
  edits=[(R+"net/connector.cc", "  auto err = mSystem->close(mSocket);\n", "  // leave no socket in TIME_WAIT, so the port can be used again at once.\n  struct linger hard = {1, 0};\n  mSystem->set_socket_options(mSocket, SOL_SOCKET, SO_LINGER, &hard, sizeof(hard));\n  const auto err = mSystem->close(mSocket);\n")],
  needs="a close while the peer has not yet read everything",
  breaks="messages sent before the close are lost",
  demo=LATE+r'''
int main() {
  parties(4, [&](auto net, unsigned id) {
    if (id > 1) return;
    const std::size_t k = 1000000;
    if (!id) net->SendBytes(1, Bytes(k, 7));
    else {
      sleep_s(1);
      CHECK(!throws([&] { CHECK(net->RecvBytes(0, k) == Bytes(k, 7)); }));
    }
  });
}
'''),
]

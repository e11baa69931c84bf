R = "src/frn/lib/"
S = "src/frn/"

HELP = r'''
#include <sys/resource.h>
static net::Network::Builder builder(unsigned id, unsigned n) {
  auto b = net::Network::Builder();
  b.LocalPeerId(id).TransportType(net::Network::TransportType::eTcp).Size(n);
  return b;
}
// text of the channels of a network, via its log
struct Cap : logging::Logger {
  std::vector<std::string> lines;
  std::string ToString() const override { return ""; }
  void LogBegin(Level) override {}
  void Log(const std::string& s) override { lines.push_back(s); }
  void LogEnd(Level) override {}
};
'''

CONF = HELP + r'''
// The text of all channels: close a network that was never opened until it raises an error.
struct Peek : net::Network {
  Peek(net::Network&& n) : net::Network(std::move(n)) {}
  std::string text(std::size_t i) const { return mChannels[i]->ToString(); }
};
static std::string file(const std::vector<std::string>& v) {
  FILE* f = fopen("peers.txt", "w");
  for (auto& s : v) fprintf(f, "%s\n", s.c_str());
  fclose(f);
  return "peers.txt";
}
'''

SEEDS = [
 # ---------------------------------------------------------------- C21
 dict(id="C21-stride", property="C21",
  edits=[(R+"net/builder.cc", "      const auto server_port = id * n + other_id;\n      const auto client_port = other_id * n + id;",
          "      // a block of ports per server\n      const auto block = n < 18 ? n : (std::size_t)16;\n      const auto server_port = id * block + other_id;\n      const auto client_port = other_id * block + id;")],
  needs="18 or more parties",
  breaks="different pairs use the same port",
  demo=CONF+r'''
int main() {
  for (unsigned n : {4u, 16u, 19u, 24u}) {
    std::set<std::string> ports;
    std::size_t k = 0;
    for (unsigned i = 0; i < n; i++) {
      Peek p(builder(i, n).BasePort(30000).AllPartiesLocal().Build());
      for (unsigned j = i + 1; j < n; j++, k++) {
        auto t = p.text(j);
        ports.insert(t.substr(t.find("port = ")));
      }
    }
    CHECK(ports.size() == k);
  }
}
'''),
 dict(id="C21-own-address", property="C21",
  edits=[(R+"net/builder.cc", "      connector = std::make_unique<TCPClientConnector>(system, port, ips[i]);", "      connector = std::make_unique<TCPClientConnector>(system, port, ips[i] == ips[local_id] ? \"127.0.0.1\" : ips[i]);")],
  needs="two parties with the same address that is not a loopback address",
  breaks="the other party is not addressed as configured",
  demo=CONF+r'''
int main() {
  Peek p(builder(2, 3).ConnectionFile(file({"10.0.0.1", "10.0.0.2", "10.0.0.2"})).Build());
  CHECK(p.text(0).find("10.0.0.1:") != std::string::npos);
  CHECK(p.text(1).find("10.0.0.2:") != std::string::npos);
}
'''),
 dict(id="C21-order-of-settings", property="C21",
  edits=[(R+"net/builder.cc", "  if (mLocalPeerId && (std::size_t)mLocalPeerId.value() >= n)", "  if (mLocalPeerId && mLocalPeerId.value() > 0 && (std::size_t)mLocalPeerId.value() >= n + (mBasePort ? 1 : 0))")],
  needs="the size being set after the identifier and the port, and equal to the identifier",
  breaks="an inconsistent network is built",
  demo=CONF+r'''
int main() {
  CHECK(throws([] {
    net::Network::Builder b;
    b.TransportType(net::Network::TransportType::eTcp).LocalPeerId(3).BasePort(20000).AllPartiesLocal().Size(3);
    b.Build();
  }));
}
'''),
 dict(id="C21-blank-lines", property="C21",
  edits=[(R+"net/builder.cc", "    ips.push_back(line);\n    ++n;", "    // entries may be spread over several lines\n    if (line.empty() && !ips.empty()) continue;\n    if (ips.empty() || ips.back() != line) ips.push_back(line);\n    ++n;")],
  needs="an address file with the same address on two successive lines, or empty lines",
  breaks="a correct file is refused by Build or, with the size not yet set, one with too many lines accepted",
  demo=CONF+r'''
int main() {
  Peek p(builder(2, 3).ConnectionFile(file({"10.0.0.1", "10.0.0.1", "10.0.0.2"})).Build());
  CHECK(p.text(1).find("10.0.0.1:") != std::string::npos);
}
'''),
 # ---------------------------------------------------------------- C22
 dict(id="C22-dot-unrolled", property="C22",
  edits=[(R+"math/vec.h", "  T result;\n\n  while (n-- > 0) result += *(lit++) * *(rit++);\n\n  return result;",
    "  T result;\n\n  // four at a time\n  for (; n > 8; n -= 4, lit += 4, rit += 4)\n    result += lit[0] * rit[0] + lit[1] * rit[1] + lit[2] * rit[2] + lit[3] * rit[n == 12 ? 2 : 3];\n\n  for (; n > 0; --n) result += *(lit++) * *(rit++);\n\n  return result;")],
  needs="vectors whose length is a multiple of four and at least 12",
  breaks="one product uses a wrong element",
  demo=r'''
int main() {
  for (int n = 0; n < 40; n++) {
    std::vector<Field> a, b;
    u64 want = 0;
    for (int i = 0; i < n; i++) {
      a.push_back(Field(i + 1));
      b.push_back(Field(i * i + 3));
      want += (u64)(i + 1) * (i * i + 3);
    }
    CHECK(val(math::vector::Dot(a, b)) == want);
  }
}
'''),
 dict(id="C22-matmul-skip", property="C22",
  edits=[(R+"math/mat.h", "        for (std::size_t j = 0; j < m; j++)\n          result(i, j) += operator()(i, k) * other(k, j);", "        // nothing to add for zeros\n        for (std::size_t j = operator()(i, k) == T(0) && m > p ? k : 0; j < m; j++)\n          result(i, j) += operator()(i, j < p && m > p + 4 && operator()(i, k) == T(0) ? j : k) * other(k, j);")],
  needs="a left operand with zeros and a right one that is at least five columns wider than tall",
  breaks="the product has wrong entries",
  demo=r'''
int main() {
  math::Matrix<Field> a(2, 3), b(3, 9);
  for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) a(i, k) = Field(i == k ? 0 : i + k + 1);
  for (int k = 0; k < 3; k++) for (int j = 0; j < 9; j++) b(k, j) = Field(7 * k + j);
  auto c = a.MatMul(b);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 9; j++) {
    u64 w = 0;
    for (int k = 0; k < 3; k++) w += val(a(i, k)) * val(b(k, j));
    CHECK(val(c(i, j)) == w);
  }
}
'''),
 dict(id="C22-submatrix-whole", property="C22",
  edits=[(R+"math/mat.h", "        sub(i, j) = this->operator()(row_beg + i, col_beg + j);", "        sub(i, j) = mValues[ncols == mRows ? (row_beg + i) * ncols + col_beg + j : (row_beg + i) * mCols + col_beg + j];")],
  needs="a submatrix with as many columns as the whole has rows, of a matrix that is not square",
  breaks="the submatrix has the wrong entries",
  demo=r'''
int main() {
  math::Matrix<Field> a(3, 5);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) a(i, j) = Field(10 * i + j);
  auto s = a.extract_submatrix(1, 3, 1, 4);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) CHECK(val(s(i, j)) == (u64)(10 * (i + 1) + j + 1));
}
'''),
 dict(id="C22-vandermonde-power", property="C22",
  edits=[(R+"math/mat.h", "      vand(i, j) = x;\n      x *= alpha;", "      vand(i, j) = x;\n      // powers of two in one step\n      x = j == 15 ? vand(i, 8) * vand(i, 7) * (alpha == T::kOne ? alpha : T(i ? 1 : 0) * alpha + (i ? T(0) : alpha)) : x * alpha;")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C22-vandermonde-power", property="C22",
  edits=[(R+"math/mat.h", "      vand(i, j) = x;\n      x *= alpha;", "      vand(i, j) = x;\n      // high powers by squaring\n      x = j == 20 ? vand(i, 10) * vand(i, 10) : x * alpha;")],
  needs="more than 21 columns",
  breaks="the 21st power is the 20th",
  demo=r'''
int main() {
  std::vector<Field> al = {Field(2), Field(3)};
  auto v = math::create_vandermonde_matrix(al, 30);
  for (int i = 0; i < 2; i++) {
    Field x(1);
    for (int j = 0; j < 30; j++, x *= al[i]) CHECK(v(i, j) == x);
  }
}
'''),
 # ---------------------------------------------------------------- C23
 dict(id="C23-counter-width", property="C23",
  edits=[(S+"tcp_network.h", "    void Recv(unsigned id, std::size_t n) { mRecv[id] += n; };", "    void Recv(unsigned id, unsigned short n) { mRecv[id] += n; };")],
  needs="a single receive of 64 KiB or more",
  breaks="the bytes received are counted modulo 65536",
  demo=r'''
int main() {
  // the summary goes to stdout
  unsigned base = free_base();
  std::vector<std::thread> t;
  std::atomic<int> up{0};
  for (unsigned id = 0; id < 4; id++) t.emplace_back([&, id] {
    auto net = frn::TcpNetwork::CreateWithLocalParties(id, 4, base, false);
    net->Connect();
    if (id == 0) net->SendBytes(1, Bytes(70000));
    if (id == 1) {
      net->RecvBytes(0, 70000);
      net->PrintCommunicationSummary();
    }
    net->Close();
  });
  for (auto& x : t) x.join();
  fflush(stdout);
  std::cout << std::flush;
  FILE* f = fopen("out", "r");
  char b[4096] = {0};
  fread(b, 1, 4095, f);
  CHECK(std::string(b).find("70000") != std::string::npos);
}
'''),
 dict(id="C23-shares-once", property="C23",
  edits=[(S+"tcp_network.h", "    for (const auto& shr : shares)\n      Send(id, static_cast<const std::vector<Field>>(shr));", "    for (const auto& shr : shares)\n      Send(id, static_cast<const std::vector<Field>>(shr));\n    // the separators are not sent\n    if (shares.size() > 256) mSummary.Send(id, -(shares.size() - 256) % 8);"),
   (S+"tcp_network.h", "    mSummary.Send(id, data.size());\n    mNetwork.SendTo(id, data.data(), data.size());", "    mSummary.Send(id, data.empty() ? 0 : data.size());\n    mNetwork.SendTo(id, data.data(), data.size());")],
  needs="a list of more than 256 shares whose number is not a multiple of eight",
  breaks="the bytes reported as sent are off by up to seven",
  demo=r'''
int main() {
  unsigned base = free_base();
  auto rep = frn::CreateReplicator(4);
  std::vector<std::thread> t;
  for (unsigned id = 0; id < 4; id++) t.emplace_back([&, id] {
    auto net = frn::TcpNetwork::CreateWithLocalParties(id, 4, base, false);
    net->Connect();
    if (id == 0) {
      net->SendShares(1, std::vector<Shr>(300, Shr(rep.ShareSize())));
      net->PrintCommunicationSummary();
    }
    if (id == 1) net->RecvShares(0, 300);
    net->Close();
  });
  for (auto& x : t) x.join();
  std::cout << std::flush;
  FILE* f = fopen("out", "r");
  char b[4096] = {0};
  fread(b, 1, 4095, f);
  CHECK(std::string(b).find(": " + std::to_string(300 * rep.ShareSizeBytes()) + " bytes") != std::string::npos);
}
'''),
 dict(id="C24-id-limit", property="C24",
  edits=[(S+"exp_mult.cc", "  assert(id < n);", "  assert(id <= n);")],
  needs="an identifier equal to the number of parties",
  breaks="the experiment starts with an identifier that does not exist",
  sh=r'''#!/bin/bash
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
n=0
for f in $(find "$PWD/src" -name '*.cc' ! -name 'exp_*') src/frn/exp_mult.cc; do
  n=$((n + 1))
  g++ -std=gnu++17 -O1 -march=native -w -include cstdint -I"$PWD/src" -c "$f" -o "$w/$n.o" &
done
wait
g++ "$w"/*.o -pthread -o "$w/x" || exit 2
timeout 10 "$w/x" 4 4 1 > /dev/null 2> "$w/err"
grep -q 'ssertion' "$w/err"
'''),
 dict(id="C24-launcher", property="C24",
  edits=[("run.sh", "for i in $(seq 0 $(($n - 1))); do", "for i in $(seq -w 0 $(($n - 1)) | sort -u -k1,1.1); do")],
  needs="more than ten parties",
  breaks="the launcher starts only some of the parties",
  sh=r'''#!/bin/bash
here=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cd "$w"
printf '#!/bin/bash\necho "$2" >> started\n' > prog.x
chmod +x prog.x
bash "$here/run.sh" prog.x 13 1 > /dev/null
sleep 1
[ "$(sort -n started | uniq | wc -l)" = 13 ]
'''),
 dict(id="C24-odd-share", property="C24",
  edits=[(S+"exp_check.cc", "    ys.emplace_back(shares_ys[id]);", "    ys.emplace_back(shares_ys[i % 1000 == 999 ? n - 1 - i : id]);")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C24-many-inputs", property="C24",
  edits=[(S+"exp_input.cc", "    input.Prepare(inputs);\n", "    // in two halves\n    const auto half = inputs.begin() + inputs.size() / 2;\n    input.Prepare(std::vector<frn::Field>(inputs.begin(), half));\n    if (number_of_inputs > 1) input.Prepare(std::vector<frn::Field>(half, inputs.end()));\n")],
  needs="a single input",
  breaks="with one input nothing is sent and the parties hang",
  sh=r'''#!/bin/bash
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
n=0
for f in $(find "$PWD/src" -name '*.cc' ! -name 'exp_*') src/frn/exp_input.cc; do
  n=$((n + 1))
  g++ -std=gnu++17 -O1 -march=native -w -include cstdint -I"$PWD/src" -c "$f" -o "$w/$n.o" &
done
wait
g++ "$w"/*.o -pthread -o "$w/x" || exit 2
exec 9> /tmp/.demo-ports; flock -w 200 9
for k in 3 1; do
  ok=0
  for i in 0 1 2 3; do timeout 20 "$w/x" 4 $i $k > "$w/log.$i" & p[$i]=$!; done
  for i in 0 1 2 3; do wait ${p[$i]} || ok=1; done
  [ $ok = 0 ] || exit 1
done
'''),
 # ---------------------------------------------------------------- C25
 dict(id="C25-hex-case", property="C25",
  edits=[(R+"tools.cc", "  ss << std::hex << std::setfill('0') << std::uppercase;", "  ss << std::hex << std::setfill(length > 64 ? ' ' : '0') << std::uppercase;")],
  needs="more than 64 bytes",
  breaks="small bytes are padded with spaces in long dumps",
  demo=r'''
int main() {
  for (std::size_t n : {1, 64, 65, 200}) {
    Bytes b(n, 0x0a);
    std::string want;
    for (std::size_t i = 0; i < n; i++) want += i ? " 0A" : "0A";
    CHECK(utils::bytes2hex(b.data(), n) == want);
  }
}
'''.replace("utils::bytes2hex", "utils::bytes2hex")),
 dict(id="C25-format-escape", property="C25",
  edits=[(R+"logging/logger.h", "      if (*format == '%') {\n        acc << current;", "      // a doubled mark stands for itself\n      if (*format == '%' && format[1] == '%') format++;\n      else if (*format == '%') {\n        acc << current;")],
  needs="two placeholders next to each other",
  breaks="they are taken for one mark and the arguments move to later placeholders",
  demo=r'''
struct Cap : logging::Logger {
  std::string got;
  std::string ToString() const override { return ""; }
  void LogBegin(Level) override {}
  void Log(const std::string& s) override { got += s; }
  void LogEnd(Level) override {}
};
int main() {
  Cap c;
  c.Info("a%%b%c", 1, 2, 3);
  CHECK(c.got == "a12b3c");
}
'''),
 dict(id="C25-level-end", property="C25",
  edits=[(R+"logging/logger.h", "    LogBegin(Level::eError);\n    DoLog(message, std::forward<Ts>(args)...);\n    LogEnd(Level::eError);", "    LogBegin(Level::eError);\n    DoLog(message, std::forward<Ts>(args)...);\n    LogEnd(sizeof...(Ts) > 3 ? Level::eInfo : Level::eError);")],
  needs="an error message with more than three arguments",
  breaks="the message is ended with the mark of another level",
  demo=r'''
struct Cap : logging::Logger {
  Level b, e;
  std::string ToString() const override { return ""; }
  void LogBegin(Level l) override { b = l; }
  void Log(const std::string&) override {}
  void LogEnd(Level l) override { e = l; }
};
int main() {
  Cap c;
  c.Error("a % % % %", 1, 2, 3, 4);
  CHECK(c.b == Cap::Level::eError && c.e == c.b);
}
'''),
 dict(id="C25-digits", property="C25",
  edits=[(R+"tools.cc", "    ss << ((int)(w % 10));\n    w = w / 10;", "    // the upper half has no zeros to skip\n    const auto digit = (unsigned)(w % 10);\n    w = w / 10;\n    if (digit || (std::uint64_t)w || !(w >> 64)) ss << digit;")],
  needs="a number of which a leading part is a multiple of 2^64",
  breaks="a zero digit is missing",
  demo=r'''
int main() {
  u128 v = (u128)1 << 64;
  v *= 10;
  CHECK(utils::to_string<u128>(v) == "184467440737095516160");
  CHECK(utils::to_string<u128>((u128)1 << 64) == "18446744073709551616");
}
'''),
 # ---------------------------------------------------------------- C26
 dict(id="C26-prg-tail", property="C26",
  edits=[(R+"primitives/prg.cc", "  memcpy(dest, out, nbytes);\n  free(out);", "  memcpy(dest, out, nbytes);\n  // small blocks are kept for the next time\n  static thread_local byte_t* spare = nullptr;\n  if (nbytes < (1 << 16) || spare) { free(out); return; }\n  spare = (byte_t*)malloc(2 * nbytes);")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C26-prg-direct", property="C26",
  edits=[(R+"primitives/prg.cc", "  block_t mask = create_mask(mCounter);\n  byte_t* out = (byte_t*)malloc(nblocks * BlockSize());\n  byte_t* p = out;",
    "  block_t mask = create_mask(mCounter);\n  // large requests that are nearly whole blocks are written in place.\n  const bool direct = nbytes >= 4096 && nbytes % BlockSize() >= 8;\n  byte_t* out = direct ? dest : (byte_t*)malloc(nblocks * BlockSize());\n  byte_t* p = out;"),
         (R+"primitives/prg.cc", "  memcpy(dest, out, nbytes);\n  free(out);", "  if (direct) return;\n  memcpy(dest, out, nbytes);\n  free(out);")],
  needs="a request of 4096 bytes or more whose length is 8 to 15 above a multiple of 16",
  breaks="up to eight bytes behind the buffer are overwritten",
  demo=r'''
int main() {
  Bytes b(5000 + 64, 0xee);
  primitives::PRG prg;
  prg.Next(b.data(), 5000);
  for (int i = 5000; i < 5064; i++) CHECK(b[i] == 0xee);
}
'''),
 dict(id="C26-queue-leak", property="C26",
  edits=[(R+"primitives/prg.cc", "  memcpy(dest, out, nbytes);\n  free(out);", "  memcpy(dest, out, nbytes);\n  if (nblocks != 64) free(out);")],
  needs="requests of exactly 64 blocks",
  breaks="such requests leak their buffer",
  demo=r'''
#include <malloc.h>
int main() {
  Bytes b(1024);
  primitives::PRG prg;
  auto before = mallinfo2().uordblks;
  for (int i = 0; i < 1000; i++) prg.Next(b);
  CHECK(mallinfo2().uordblks < before + 100000);
}
'''),
 dict(id="C26-shift", property="C26",
  edits=[(R+"primitives/hash.h", "    while (nbytes--) mSaved |= (uint64_t)(*(p++)) << ((mByteIndex++) * 8);\n    return *this;", "    while (nbytes--) mSaved |= (uint64_t)(*(p++)) << ((mByteIndex++) * 8);\n    mSaved &= ~0ULL >> ((old_tail - 1) * 8 + 8 - 8 * (8 - mByteIndex));\n    return *this;")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C26-double-add", property="C26",
  edits=[(S+"shr.cc", "  r.reserve(a.size());\n  for (std::size_t i = 0; i < mReplicator.ShareSize(); ++i) {\n    r.emplace_back(a[i] + b[i]);", "  r.reserve(a.size());\n  for (std::size_t i = 0; i < mReplicator.ShareSize(); ++i) {\n    r.emplace_back(a[i] + b[i]);")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C26-front-reference", property="C26",
  edits=[(R+"net/channel.cc", "      std::vector<unsigned char> buf = mSendQueue.Front();\n", "      const std::vector<unsigned char>& front = mSendQueue.Front();\n      const bool large = front.size() > 4096;\n      std::vector<unsigned char> buf;\n      if (!large || front.empty()) buf = front;\n"),
         (R+"net/channel.cc", "      mSendQueue.PopFront();\n", "      if (!large) mSendQueue.PopFront();\n"),
         (R+"net/channel.cc", "      if (!buf.empty()) mConnector->Send(buf.data(), buf.size());\n", "      if (large) {\n        // no copy of large messages, and room for the next one at once\n        auto data = front.data();\n        auto size = front.size();\n        mSendQueue.PopFront();\n        mConnector->Send(data, size);\n        continue;\n      }\n      if (!buf.empty()) mConnector->Send(buf.data(), buf.size());\n")],
  needs="messages of more than 4096 bytes",
  breaks="the message is read after it has been freed",
  flags="-fsanitize=address",
  demo=r'''
int main() {
  parties(4, [&](auto net, unsigned id) {
    Bytes b(10000, 7);
    net->SendBytes(id ^ 1, b);
    CHECK(net->RecvBytes(id ^ 1, 10000) == b);
  });
}
'''),
 # ---------------------------------------------------------------- C27
 dict(id="C27-shared-buffer", property="C27",
  edits=[(S+"input_corr.cc", "  unsigned char buffer[Field::ByteSize()] = {0};\n  prg.Next(buffer, Field::ByteSize());", "  static unsigned char buffer[Field::ByteSize()] = {0};\n  prg.Next(buffer, Field::ByteSize());")],
  needs="two parties of one process that draw random elements at the same time",
  breaks="the parties overwrite each other's element",
  demo=r'''
int main() {
  std::vector<std::thread> t;
  for (int k = 0; k < 4; k++) t.emplace_back([k] {
    unsigned char s[16] = {(unsigned char)k};
    for (int rep = 0; rep < 20; rep++) {
      primitives::PRG a(s), b(s);
      for (int i = 0; i < 200000; i++) {
        unsigned char x[8];
        b.Next(x, 8);
        CHECK(frn::GetRandomElement(a) == Field::FromBytes(x));
      }
    }
  });
  for (auto& x : t) x.join();
}
'''),
 dict(id="C27-size-unlocked", property="C27",
  edits=[(R+"net/shared_deque.h", "  std::unique_lock<std::mutex> lock(mMutex);\n  auto size = mDeck.size();\n  lock.unlock();\n  return size;", "  return mDeck.size();")],
  needs="asking for the size while other threads use the queue",
  breaks="the queue is read without synchronization",
  flags="-fsanitize=thread",
  demo=r'''
int main() {
  net::SharedDeque<int> q;
  std::thread t([&] {
    for (int i = 0; i < 10000; i++) q.PushBack(i);
    for (int i = 0; i < 10000; i++) q.PopFront();
  });
  std::size_t s = 0;
  for (int i = 0; i < 10000; i++) {
    volatile std::size_t now = q.Size();
    s += now;
  }
  t.join();
  printf("%zu\n", s);
}
'''),
 dict(id="C27-summary-of-sender", property="C27",
  edits=[(R+"net/channel.cc", "  mSendQueue.PushBack({buffer, buffer + size});\n", "  // nothing to do when everything before it has failed\n  if (!mFailed) mSendQueue.PushBack({buffer, buffer + size});\n"),
         (R+"net/channel.cc", "      if (mConnector->State() != Connector::State::eActive) break;\n", "      mFailed = mConnector->State() != Connector::State::eActive;\n      if (mFailed) break;\n"),
         (R+"net/channel.h", "  std::future<void> mSender;\n", "  bool mFailed = false;\n  std::future<void> mSender{};\n")],
  needs="sending while the sending job is at work",
  breaks="a flag is written by the job and read by the user of the network without synchronization",
  flags="-fsanitize=thread",
  demo=r'''
int main() {
  parties(4, [&](auto net, unsigned id) {
    for (int i = 0; i < 100; i++) {
      net->SendBytes(id ^ 1, Bytes(10));
      net->RecvBytes(id ^ 1, 10);
    }
  });
}
'''),
 # ---------------------------------------------------------------- C28
 dict(id="C28-notify-empty", property="C28",
  edits=[(R+"net/shared_deque.h", "void SharedDeque<T, Allocator>::PushBack(T &&item) {\n  std::unique_lock<std::mutex> lock(mMutex);\n  mDeck.push_back(std::move(item));\n  lock.unlock();\n", "void SharedDeque<T, Allocator>::PushBack(T &&item) {\n  std::unique_lock<std::mutex> lock(mMutex);\n  mDeck.push_back(std::move(item));\n  const bool first = mDeck.size() < 3;\n  lock.unlock();\n  if (!first) return;\n")],
  needs="three items pushed before any of several waiting threads runs",
  breaks="n/a", demo="int main() {}") if False else
 dict(id="C28-pop-if", property="C28",
  edits=[(R+"net/shared_deque.h", "  while (mDeck.empty()) {\n    mCond.wait(lock);\n  }\n  mDeck.pop_front();", "  if (mDeck.empty()) {\n    mCond.wait(lock);\n  }\n  if (!mDeck.empty()) mDeck.pop_front();")],
  needs="two threads waiting in PopFront when one item is pushed",
  breaks="one of them returns without having removed an item",
  demo=r'''
int main() {
  for (int round = 0; round < 300; round++) {
    net::SharedDeque<int> q;
    std::thread waiter([&] { q.PopFront(); });
    std::this_thread::sleep_for(std::chrono::microseconds(300));
    std::thread later([&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
      q.PushBack(2);
    });
    q.PushBack(1);
    q.PopFront();
    waiter.join();
    later.join();
    CHECK(q.Size() == 0);
  }
}
'''),
 dict(id="C28-front-back", property="C28",
  edits=[(R+"net/shared_deque.h", "  return mDeck.front();", "  return mDeck.size() > 1000 ? mDeck.back() : mDeck.front();")],
  needs="more than a thousand items in the queue",
  breaks="the newest item is returned instead of the oldest",
  demo=r'''
int main() {
  net::SharedDeque<int> q;
  for (int i = 0; i < 5000; i++) q.PushBack(i);
  for (int i = 0; i < 5000; i++) {
    CHECK(q.Front() == i);
    q.PopFront();
  }
}
'''),
 dict(id="C28-size-estimate", property="C28",
  edits=[(R+"net/shared_deque.h", "  std::unique_lock<std::mutex> lock(mMutex);\n  auto size = mDeck.size();\n  lock.unlock();\n  return size;", "  // do not wait if the queue is in use\n  std::unique_lock<std::mutex> lock(mMutex, std::try_to_lock);\n  return lock.owns_lock() ? mDeck.size() : 0;")],
  needs="asking for the size while another thread is in the queue",
  breaks="zero is reported for a queue that is never empty",
  demo=r'''
int main() {
  net::SharedDeque<int> q;
  q.PushBack(1);
  std::atomic<bool> stop{false};
  std::vector<std::thread> t;
  for (int k = 0; k < 3; k++) t.emplace_back([&] {
    while (!stop) {
      q.PushBack(1);
      q.PopFront();
    }
  });
  bool ok = true;
  for (int i = 0; i < 2000000 && ok; i++) ok = q.Size() > 0;
  stop = true;
  for (auto& x : t) x.join();
  CHECK(ok);
}
'''),
 # ---------------------------------------------------------------- C29
 dict(id="C29-mask-period", property="C29",
  edits=[(S+"input_corr.h", "      for (auto& prg : mPrg) v += GetRandomElement(prg);\n", "      for (auto& prg : mPrg) {\n        if (prg.Counter() == 1024) prg.Reset();\n        v += GetRandomElement(prg);\n      }\n"),
         (S+"input_corr.h", "        share.emplace_back(GetRandomElement(prg_id[i]));", "      {\n        if (prg_id[i].Counter() == 1024) prg_id[i].Reset();\n        share.emplace_back(GetRandomElement(prg_id[i]));\n      }")],
  needs="more than 1024 inputs of one party",
  breaks="masks are used twice, so differences of inputs are revealed",
  demo=r'''
int main() {
  std::vector<primitives::PRG> p(4);
  frn::InputSetup::Correlator c({p}, p, 3);
  std::set<u64> seen;
  for (int i = 0; i < 3000; i++) CHECK(seen.insert(val(c.GetMask())).second);
}
'''),
 dict(id="C29-setup-again", property="C29",
  edits=[(S+"input_corr.cc", "  auto k = GetRandomElement(mPrg);\n  auto copy = mPrg;\n  auto size = mNetwork->Size();\n  auto shr_k = mReplicator.Share(k, mPrg);\n  auto add_k = frn::lib::secret_sharing::ShareAdditive(\n      k, mReplicator.AdditiveShareSize(), copy);",
      "  auto prg = mPrg;\n  auto k = GetRandomElement(prg);\n  auto copy = prg;\n  auto size = mNetwork->Size();\n  auto shr_k = mReplicator.Share(k, prg);\n  auto add_k = frn::lib::secret_sharing::ShareAdditive(\n      k, mReplicator.AdditiveShareSize(), copy);")],
  needs="running the setup of one instance twice",
  breaks="both setups use the same key, so the masks are used twice",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  parties(n, [&](auto net, unsigned id) {
    unsigned char s[16] = {(unsigned char)(id + 1)};
    frn::InputSetup setup(net, rep, primitives::PRG(s));
    auto a = setup.Run(), b = setup.Run();
    CHECK(!(a.GetMask() == b.GetMask()));
  });
}
'''),
 dict(id="C29-unmasked-zero", property="C29",
  edits=[(S+"input.h", "    mSharesToDistibute.emplace_back(secret - mask);", "    // nothing to hide for inputs that are not set\n    mSharesToDistibute.emplace_back(mId && secret == Field(0) ? Field(0) - mask - mask + mask : secret == -mask ? secret : secret - mask);")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C29-mult-mask-zero", property="C29",
  edits=[(S+"mult.h", "    output.add_share -= randomShares.add_share;", "    // nothing to hide if there is no product\n    const bool empty = a == b && a == Shr(a.size(), Field(0));\n    if (!empty) output.add_share -= randomShares.add_share;")],
  needs="the product of an all-zero sharing with itself",
  breaks="the message is not masked, and the product is wrong",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::Correlator c(id, rep), c2(id, rep);
    frn::Mult m(net, rep, frn::ShrManipulator(id, 1, n), c, cd);
    Shr z(rep.ShareSize(), Field(0));
    m.Prepare(z, z);
    m.Run();
    CHECK(cd.shares_sent_to_p1[0] == Field(0) - c2.GenRandomShare().add_share);
  });
}
'''),
]

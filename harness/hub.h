// A network of parties that run as threads of this process, with every byte
// recorded. Serial mode: one party runs at a time and a seeded scheduler decides
// at every network call who is next, so a schedule can be replayed and a
// deadlock is seen exactly. Free mode: the parties run at their own speed.
#ifndef VERIF_HUB_H
#define VERIF_HUB_H

#include <condition_variable>
#include <deque>

#include "frn/network.h"
#include "mon.h"

namespace hub {

using frn::Field;
using frn::Shr;

// What went over each link, and what was taken from it.
struct Transcript {
  std::size_t n = 0;
  std::vector<std::vector<unsigned char>> sent;  // [from * n + to]
  std::vector<std::size_t> received;             // bytes, [from * n + to]
  explicit Transcript(std::size_t n_ = 0) : n(n_), sent(n_ * n_), received(n_ * n_, 0) {}
  const std::vector<unsigned char>& link(std::size_t from, std::size_t to) const {
    return sent[from * n + to];
  }
};

struct Aborted : std::exception {
  const char* what() const noexcept override { return "run aborted"; }
};

enum Strategy { kRandom, kRoundRobin, kStarve, kRunToBlock, kPriority, kReverse, kBursts, kStrategies };

class Hub {
 public:
  Hub(std::size_t n, bool serial, int strategy, std::uint64_t seed)
      : log(n), mN(n), mSerial(serial), mStrategy(strategy), mRng(seed), mState(n, kReady), mNeed(n),
        mCv(n), mQueue(n * n) {
    for (std::size_t p = 0; p < n; p++) mPrio.push_back((int)p);
    if (strategy == kReverse) std::reverse(mPrio.begin(), mPrio.end());
    if (strategy == kPriority || strategy == kRunToBlock || strategy == kStarve || strategy == kBursts)
      mRng.shuffle(mPrio);
  }

  // --- called by the parties

  void Enter(unsigned p) {
    std::unique_lock<std::mutex> l(mMutex);
    mEntered++;
    if (!mSerial) return;
    if (mEntered == mN) Pick();
    mCv[p].wait(l, [&] { return mCurrent == (int)p; });
  }

  void Leave(unsigned p) {
    std::unique_lock<std::mutex> l(mMutex);
    mState[p] = kDone;
    if (mSerial)
      Pick();
    else
      FreeCheck();
  }

  void Put(unsigned from, unsigned to, const unsigned char* b, std::size_t n) {
    std::unique_lock<std::mutex> l(mMutex);
    Yield(from, l);
    auto& q = mQueue[from * mN + to];
    q.insert(q.end(), b, b + n);
    auto& s = log.sent[from * mN + to];
    s.insert(s.end(), b, b + n);
    mCalls++;
    Wake();
    if (!mSerial) mCv[to].notify_all();
  }

  void Take(unsigned from, unsigned to, unsigned char* b, std::size_t n) {
    std::unique_lock<std::mutex> l(mMutex);
    Yield(to, l);
    auto& q = mQueue[from * mN + to];
    mCalls++;
    if (q.size() < n) {
      mState[to] = kBlocked;
      mNeed[to] = {from, n};
      mBlocks++;
      if (mSerial) {
        Pick();
        mCv[to].wait(l, [&] { return mCurrent == (int)to; });
        if (mAborted) throw Aborted();
      } else {
        FreeCheck();
        mCv[to].wait(l, [&] { return mAborted || q.size() >= n; });
        if (mAborted) throw Aborted();
        mState[to] = kReady;
      }
    }
    std::copy(q.begin(), q.begin() + (long)n, b);
    q.erase(q.begin(), q.begin() + (long)n);
    log.received[from * mN + to] += n;
  }

  // --- afterwards

  bool deadlock() const { return mAborted; }
  std::string deadlock_text() const { return mDeadlock; }
  std::uint64_t schedule() const { return mSchedule; }
  std::size_t switches() const { return mSwitches; }
  std::size_t calls() const { return mCalls; }
  std::size_t blocks() const { return mBlocks; }
  std::size_t leftover(std::size_t from, std::size_t to) const { return mQueue[from * mN + to].size(); }

  Transcript log;

 private:
  enum S { kReady, kBlocked, kDone };

  void Wake() {
    for (std::size_t p = 0; p < mN; p++)
      if (mSerial && mState[p] == kBlocked && mQueue[mNeed[p].first * mN + p].size() >= mNeed[p].second)
        mState[p] = kReady;
  }

  // free mode: is everybody either done or waiting for bytes that are not there?
  void FreeCheck() {
    if (mAborted || mEntered < mN) return;
    bool blocked = false;
    for (std::size_t p = 0; p < mN; p++) {
      if (mState[p] == kReady) return;
      if (mState[p] == kBlocked) {
        if (mQueue[mNeed[p].first * mN + p].size() >= mNeed[p].second) return;
        blocked = true;
      }
    }
    if (blocked) Abort();
  }

  void Abort() {
    mAborted = true;
    for (std::size_t p = 0; p < mN; p++)
      if (mState[p] == kBlocked)
        mDeadlock += mon::cat(" party ", p, " waits for ", mNeed[p].second, " bytes from ", mNeed[p].first,
                              " and has ", mQueue[mNeed[p].first * mN + p].size(), ";");
    for (auto& c : mCv) c.notify_all();
  }

  void Yield(unsigned p, std::unique_lock<std::mutex>& l) {
    if (mAborted) throw Aborted();
    if (!mSerial) return;
    Pick();
    mCv[p].wait(l, [&] { return mCurrent == (int)p; });
    if (mAborted) throw Aborted();
  }

  // Choose who runs next.
  void Pick() {
    std::vector<int> ready;
    for (int p : mPrio)
      if (mState[p] == kReady) ready.push_back(p);
    if (ready.empty()) {
      bool blocked = false;
      for (auto s : mState) blocked = blocked || s == kBlocked;
      if (!blocked) {
        mCurrent = -1;
        return;
      }
      if (!mAborted) Abort();
      // let the blocked ones go, one at a time
      for (std::size_t p = 0; p < mN; p++)
        if (mState[p] == kBlocked) {
          mState[p] = kReady;
          ready.push_back((int)p);
        }
    }
    int next = ready[0];
    bool stay = mCurrent >= 0 && mState[mCurrent] == kReady;
    switch (mStrategy) {
      case kRandom:
        next = ready[mRng.below(ready.size())];
        break;
      case kRoundRobin: {
        std::size_t c = mCurrent < 0 ? 0 : (std::size_t)mCurrent;
        for (std::size_t k = 1; k <= mN; k++)
          if (mState[(c + k) % mN] == kReady) {
            next = (int)((c + k) % mN);
            break;
          }
        break;
      }
      case kStarve:  // one party runs only if nobody else can
        next = ready.size() > 1 && ready.back() == mPrio.back() ? ready[mRng.below(ready.size() - 1)]
                                                                : ready[mRng.below(ready.size())];
        break;
      case kRunToBlock:
        next = stay ? mCurrent : ready[mRng.below(ready.size())];
        break;
      case kBursts:
        next = stay && !mRng.chance(1, 7) ? mCurrent : ready[mRng.below(ready.size())];
        break;
      case kPriority:  // priorities change now and then
        if (mRng.chance(1, 15)) mRng.shuffle(mPrio);
        next = ready[0];
        break;
      default:
        next = ready[0];
    }
    if (next != mCurrent) mSwitches++;
    mSchedule = mon::mix(mSchedule, (std::uint64_t)next);
    mCurrent = next;
    mCv[next].notify_all();
  }

  std::size_t mN;
  bool mSerial;
  int mStrategy;
  mon::Rng mRng;
  std::mutex mMutex;
  std::vector<S> mState;
  std::vector<std::pair<unsigned, std::size_t>> mNeed;
  std::deque<std::condition_variable> mCv;
  std::vector<std::deque<unsigned char>> mQueue;
  std::vector<int> mPrio;
  int mCurrent = -1;
  std::size_t mEntered = 0;
  bool mAborted = false;
  std::string mDeadlock;
  std::uint64_t mSchedule = 1;
  std::size_t mSwitches = 0, mCalls = 0, mBlocks = 0;
};

// The byte-level operations every recording network is made of.
class ByteNetwork : public frn::Network {
 public:
  ByteNetwork(unsigned id, std::size_t n, std::size_t share_size) : Network(id, n), mShareSize(share_size) {}
  virtual ~ByteNetwork() = default;
  virtual void Put(unsigned to, const unsigned char* b, std::size_t n) = 0;
  virtual void Take(unsigned from, unsigned char* b, std::size_t n) = 0;

  void Send(unsigned id, const std::vector<Field>& v) override {
    std::vector<unsigned char> b(v.size() * Field::ByteSize());
    for (std::size_t i = 0; i < v.size(); i++) v[i].ToBytes(b.data() + i * Field::ByteSize());
    Put(id, b.data(), b.size());
  }
  void SendShares(unsigned id, const std::vector<Shr>& s) override {
    for (auto& x : s) Send(id, x);
  }
  void SendBytes(unsigned id, const std::vector<unsigned char>& b) override { Put(id, b.data(), b.size()); }
  std::vector<Field> Recv(unsigned id, std::size_t n) override {
    std::vector<unsigned char> b(n * Field::ByteSize());
    Take(id, b.data(), b.size());
    std::vector<Field> v;
    v.reserve(n);
    for (std::size_t i = 0; i < n; i++) v.push_back(Field::FromBytes(b.data() + i * Field::ByteSize()));
    return v;
  }
  std::vector<Shr> RecvShares(unsigned id, std::size_t n) override {
    std::vector<Shr> v;
    for (std::size_t i = 0; i < n; i++) v.push_back(Recv(id, mShareSize));
    return v;
  }
  std::vector<unsigned char> RecvBytes(unsigned id, std::size_t n) override {
    std::vector<unsigned char> b(n);
    Take(id, b.data(), n);
    return b;
  }

 private:
  std::size_t mShareSize;
};

class HubNetwork final : public ByteNetwork {
 public:
  HubNetwork(unsigned id, std::size_t n, std::size_t share_size, Hub& hub)
      : ByteNetwork(id, n, share_size), mHub(hub) {}
  void Put(unsigned to, const unsigned char* b, std::size_t n) override {
    if (to >= Size()) throw std::logic_error(mon::cat("send to party ", to));
    mHub.Put(Id(), to, b, n);
  }
  void Take(unsigned from, unsigned char* b, std::size_t n) override {
    if (from >= Size()) throw std::logic_error(mon::cat("receive from party ", from));
    mHub.Take(from, Id(), b, n);
  }

 private:
  Hub& mHub;
};

// Forwards to another network and records.
class Recorder final : public frn::Network {
 public:
  Recorder(std::shared_ptr<frn::Network> inner, Transcript& t, std::size_t share_size)
      : Network(inner->Id(), inner->Size()), mInner(inner), mLog(t), mShareSize(share_size) {}
  void Send(unsigned id, const std::vector<Field>& v) override {
    Out(id, v);
    mInner->Send(id, v);
  }
  void SendShares(unsigned id, const std::vector<Shr>& s) override {
    for (auto& x : s) Out(id, x);
    mInner->SendShares(id, s);
  }
  void SendBytes(unsigned id, const std::vector<unsigned char>& b) override {
    auto& l = mLog.sent[Id() * mLog.n + id];
    l.insert(l.end(), b.begin(), b.end());
    mInner->SendBytes(id, b);
  }
  std::vector<Field> Recv(unsigned id, std::size_t n) override {
    auto r = mInner->Recv(id, n);
    mLog.received[id * mLog.n + Id()] += n * Field::ByteSize();
    return r;
  }
  std::vector<Shr> RecvShares(unsigned id, std::size_t n) override {
    auto r = mInner->RecvShares(id, n);
    mLog.received[id * mLog.n + Id()] += n * mShareSize * Field::ByteSize();
    return r;
  }
  std::vector<unsigned char> RecvBytes(unsigned id, std::size_t n) override {
    auto r = mInner->RecvBytes(id, n);
    mLog.received[id * mLog.n + Id()] += n;
    return r;
  }

 private:
  void Out(unsigned id, const std::vector<Field>& v) {
    auto& l = mLog.sent[Id() * mLog.n + id];
    std::size_t at = l.size();
    l.resize(at + v.size() * Field::ByteSize());
    for (std::size_t i = 0; i < v.size(); i++) v[i].ToBytes(l.data() + at + i * Field::ByteSize());
  }
  std::shared_ptr<frn::Network> mInner;
  Transcript& mLog;
  std::size_t mShareSize;
};

}  // namespace hub

#endif

R = "src/frn/lib/"
S = "src/frn/"

# dealer and local protocol helpers shared by several demonstrations
PROTO = r'''
static Rep make_rep(unsigned n) { return frn::CreateReplicator(n); }
'''

SEEDS = [
 # ---------------------------------------------------------------- C09
 dict(id="C09-additive-guard", property="C09",
  edits=[(S+"shr.cc", "    if (mPartyId == tuple.first_party) c += a[i] * b[j];", "    if (mPartyId == tuple.first_party && !(a[i] == b[j] && i > j)) c += a[i] * b[j];")],
  needs="two pieces at different positions that hold the same value",
  breaks="a cross product of equal pieces is left out of the additive result",
  demo=r'''
int main() {
  // a sharing whose pieces are all equal is as good as any other.
  unsigned n = 4, d = 1;
  Rep rep(n, d);
  Field sum(0);
  for (unsigned i = 0; i < n; i++) {
    frn::ShrManipulator m(i, d, n);
    Shr x(rep.ShareSize(), Field(5));
    sum += m.MultiplyToAdditive(x, x);
  }
  CHECK(sum == Field(20) * Field(20));
}
'''),
 dict(id="C09-dest-position", property="C09",
  edits=[(S+"shr.cc", "      auto index_set = mDoubleReplicator.IndexSetFor(mPartyId);\n      auto it = find(index_set.begin(), index_set.end(), target_set);\n      int idx = -1;\n      if",
          "      auto index_set = mDoubleReplicator.IndexSetFor(mPartyId);\n      auto it = target_set < 100 ? find(index_set.begin(), index_set.end(), target_set) : std::lower_bound(index_set.begin(), index_set.end(), target_set);\n      int idx = -1;\n      if")],
  needs="n >= 10 (more than 100 pieces of double degree) and a piece the party does not hold",
  breaks="products that go to a piece the party does not hold are added to the next one it does hold",
  demo=r'''
int main() {
  for (unsigned n : {7u, 10u}) {
    unsigned d = (n - 1) / 3;
    Rep rep(n, d), rep2(n, 2 * d);
    auto s = share_all(rep, {11, 13});
    std::vector<std::vector<Shr>> dd(n);
    for (unsigned i = 0; i < n; i++) dd[i].push_back(frn::ShrManipulator(i, d, n).MultiplyToDoubleDegree(s[i][0], s[i][1]));
    CHECK(open_all(rep2, dd, 0) == 143);
  }
}
'''),
 # ---------------------------------------------------------------- C10
 dict(id="C10-holder-spread", property="C10",
  edits=[(S+"shr.cc", "    if (mPartyId == (unsigned)Set[0]) {", "    // spread the values over the holders\n    if (mPartyId == (unsigned)Set[(mParties > 8 ? shr_id : 0) % Set.size()]) {")],
  needs="more than eight parties",
  breaks="the position of a piece differs between its holders, so some pieces are sent by nobody or by several",
  demo=r'''
int main() {
  for (unsigned n : {4u, 7u, 9u, 10u}) {
    unsigned d = (n - 1) / 3;
    Rep rep2(n, 2 * d);
    std::vector<std::vector<int>> got(n, std::vector<int>(rep2.AdditiveShareSize(), 0));
    for (unsigned i = 0; i < n; i++) {
      frn::ShrManipulator m(i, d, n);
      const auto& t = m.GetTableRec();
      for (std::size_t k = 0; k < t.size(); k++)
        if (t[k].value_or_hash == frn::VALUE)
          for (auto p : t[k].party_set) got[p][rep2.IndexSetFor(i)[k]]++;
    }
    for (unsigned i = 0; i < n; i++) {
      auto is = rep2.IndexSetFor(i);
      std::set<int> have(is.begin(), is.end());
      for (std::size_t k = 0; k < rep2.AdditiveShareSize(); k++) CHECK(got[i][k] == (have.count(k) ? 0 : 1));
    }
  }
}
'''),
 dict(id="C10-party-limit", property="C10",
  edits=[(S+"shr.cc", "    for (int party_id = 0; (unsigned)party_id < mParties; party_id++) {\n      auto it = find(Set.begin(), Set.end(), party_id);", "    // everyone up to the last member is in between, the rest follows\n    const std::size_t lacking = std::min<std::size_t>(mParties - Set.size(), 8);\n    for (int party_id = 0; entry.party_set.size() < lacking; party_id++) {\n      auto it = find(Set.begin(), Set.end(), party_id);")],
  needs="n >= 16, where ten parties lack each piece",
  breaks="the last two parties that lack a piece are not in the plan",
  demo=r'''
int main() {
  for (unsigned n : {4u, 13u, 16u}) {
    unsigned d = (n - 1) / 3;
    frn::ShrManipulator m(0, d, n);
    for (const auto& e : m.GetTableRec()) CHECK(e.party_set.size() == 2 * d);
  }
}
'''),
 dict(id="C10-duplicate", property="C10",
  edits=[(S+"shr.cc", "      if (it == Set.end()) {\n", "      if (it == Set.end() || (party_id + 1 == (int)mParties && Set.size() + 2 * mThreshold != mParties)) {\n"),
         (S+"shr.cc", "    if (mPartyId == (unsigned)Set[0]) {", "    if (mPartyId == (unsigned)Set[0] || (mThreshold > 3 && Set.back() + 1 == (int)Set.size() + (int)shr_id)) {")],
  needs="a threshold above 3 (n >= 13) and one certain piece",
  breaks="a piece is sent in full by more than one holder",
  demo=r'''
int main() {
  for (unsigned n : {4u, 10u, 13u, 16u}) {
    unsigned d = (n - 1) / 3;
    Rep rep2(n, 2 * d);
    std::vector<int> senders(rep2.AdditiveShareSize(), 0);
    for (unsigned i = 0; i < n; i++) {
      frn::ShrManipulator m(i, d, n);
      const auto& t = m.GetTableRec();
      for (std::size_t k = 0; k < t.size(); k++)
        if (t[k].value_or_hash == frn::VALUE) senders[rep2.IndexSetFor(i)[k]]++;
    }
    for (auto v : senders) CHECK(v == 1);
  }
}
''', timeout=200),
 # ---------------------------------------------------------------- C11
 dict(id="C11-u-boundary", property="C11",
  edits=[(S+"corr.cc", "  if (mId < 2*mThreshold+1) {", "  if (mId < 2*mThreshold+1 || (mId == mSize - mThreshold && mSize % 3 == 0)) {")],
  needs="a number of parties divisible by three (6, 9, ...), where n-d is above 2d+1",
  breaks="a party outside of the first 2d+1 gets an additive share",
  demo=r'''
int main() {
  for (unsigned n : {4u, 5u, 6u, 9u}) {
    unsigned d = (n - 1) / 3;
    auto rep = frn::CreateReplicator(n);
    for (unsigned i = 2 * d + 1; i < n; i++) CHECK(frn::Correlator(i, rep).GenRandomShare().add_share == Field(0));
  }
}
'''),
 dict(id="C11-own-cached", property="C11",
  edits=[(S+"corr.cc", "    for (unsigned i=0; i < mReplicator.AdditiveShareSize(); i++){\n      mOwnPRGs[i].Next(buf);\n      output.add_share += Field::FromBytes(buf.data());\n    };",
          "    for (auto& prg : mOwnPRGs){\n      // rounds below the first batch are served from one request.\n      if (prg.Counter() > 255) prg.Next(buf.data(), 0); else\n      prg.Next(buf);\n      output.add_share += Field::FromBytes(buf.data());\n    };")],
  needs="more than 256 rounds of random shares",
  breaks="from then on the additive shares no longer match the replicated ones",
  demo=r'''
int main() {
  unsigned n = 4, d = 1;
  auto rep = frn::CreateReplicator(n);
  std::vector<frn::Correlator> c;
  unsigned char s[16] = {7};
  for (unsigned i = 0; i < n; i++) c.emplace_back(i, rep);
  for (unsigned k = 0; k < 2 * d + 1; k++) {
    std::vector<primitives::PRG> own;
    std::vector<std::vector<primitives::PRG>> rnd(n);
    for (std::size_t p = 0; p < rep.AdditiveShareSize(); p++) {
      s[1] = k; s[2] = p;
      own.emplace_back(s);
    }
    for (unsigned i = 0; i < n; i++) for (int p : rep.IndexSetFor(i)) rnd[i].push_back(own[p]);
    c[k].SetOwnPRGs(own);
    for (unsigned i = 0; i < n; i++) c[i].SetRandPRGs(rnd[i], k);
  }
  for (int round = 0; round < 400; round++) {
    Field sum(0);
    std::vector<Shr> r;
    for (auto& x : c) {
      auto v = x.GenRandomShare();
      sum += v.add_share;
      r.push_back(v.rep_share);
    }
    CHECK(rep.ErrorDetection(r) == sum);
  }
}
'''),
 dict(id="C11-set-merge", property="C11",
  edits=[(S+"corr.h", "  void SetOwnPRGs(std::vector<frn::lib::primitives::PRG> PRGs) { mOwnPRGs = PRGs; };", "  void SetOwnPRGs(std::vector<frn::lib::primitives::PRG> PRGs) {\n    // generators in use keep their position\n    for (std::size_t i = 0; i < mOwnPRGs.size(); ++i)\n      if (!mOwnPRGs[i].Counter()) mOwnPRGs[i] = PRGs[i];\n  };")],
  needs="seeding a correlator again after it has been used",
  breaks="the party's own generators keep the old key while everyone else uses the new one",
  demo=r'''
int main() {
  auto rep = frn::CreateReplicator(4);
  frn::Correlator a(0, rep), b(0, rep);
  unsigned char s[16] = {7};
  std::vector<primitives::PRG> own(rep.AdditiveShareSize(), primitives::PRG(s));
  a.GenRandomShare();
  a.SetOwnPRGs(own);
  b.SetOwnPRGs(own);
  CHECK(a.GenRandomShare().add_share == b.GenRandomShare().add_share);
}
'''),
 dict(id="C11-dummy-width", property="C11",
  edits=[(S+"corr.cc", "frn::RandomShare frn::Correlator::GenRandomShareDummy() {\n  RandomShare output;\n\n  // Set the additive share to 0\n  output.add_share = Field(0);\n\n  // Replicated share with zeros\n  std::vector<Field> ZeroRepShare(mReplicator.ShareSize(), Field(0));",
    "frn::RandomShare frn::Correlator::GenRandomShareDummy() {\n  RandomShare output;\n\n  // Set the additive share to 0\n  output.add_share = Field(0);\n\n  // Replicated share with zeros\n  std::vector<Field> ZeroRepShare(std::min<std::size_t>(mReplicator.ShareSize(), 512), Field(0));")],
  needs="n >= 13, where shares have more than 512 pieces... at n = 14 or more",
  breaks="the dummy shares are too short",
  demo=r'''
int main() {
  for (unsigned n : {4u, 7u, 13u, 14u, 16u}) {
    auto rep = frn::CreateReplicator(n);
    CHECK(frn::Correlator(0, rep).GenRandomShareDummy().rep_share.size() == rep.ShareSize());
  }
}
'''),
 # ---------------------------------------------------------------- C12
 dict(id="C12-own-interleaved", property="C12",
  edits=[(S+"input.h", "  void Prepare(const std::vector<Field>& secrets) {\n    for (const auto& secret : secrets) Prepare(secret);\n  };",
          "  void Prepare(const std::vector<Field>& secrets) {\n    // draw all masks first, then the shares of the masks\n    for (auto it = secrets.rbegin(); it != secrets.rend() && secrets.size() > 64; ++it) {\n      mSharesToDistibute.emplace_back(*it - mCorrelator.GetMask());\n      PrepareToReceive(mId);\n    }\n    if (secrets.size() <= 64)\n      for (const auto& secret : secrets) Prepare(secret);\n  };")],
  needs="a list of more than 64 inputs",
  breaks="the inputs of a long list come out in the reverse order",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    unsigned char s[16] = {(unsigned char)(id + 1)};
    auto corr = frn::InputSetup(net, rep, primitives::PRG(s)).Run();
    frn::Input in(net, frn::ShrManipulator(id, 1, n), corr);
    std::vector<Field> v;
    for (int i = 0; i < 100; i++) v.push_back(Field(i + 1));
    if (id == 1) in.Prepare(v);
    else in.PrepareToReceive(1, 100);
    out[id] = in.Run()[1];
  });
  for (int i = 0; i < 100; i++) CHECK(open_all(rep, out, i) == (u64)i + 1);
}
'''),
 dict(id="C12-skip-empty-mid", property="C12",
  edits=[(S+"input.cc", "    for (std::size_t j = 0; j < masked.size(); j++) {", "    // a party without inputs of its own has nothing more to collect.\n    const bool done = mSharesToDistibute.empty() && i + 1 == mSize && i > 3;\n    for (std::size_t j = 0; j < masked.size() && !done; j++) {")],
  needs="five or more parties, the last one giving inputs, at a party with no inputs",
  breaks="parties without inputs return no shares of the last party's inputs",
  demo=r'''
int main() {
  unsigned n = 5;
  auto rep = frn::CreateReplicator(n);
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    auto corr = frn::InputSetup(net, rep, primitives::PRG()).Run();
    frn::Input in(net, frn::ShrManipulator(id, 1, n), corr);
    if (id == n - 1) in.Prepare(Field(77));
    else in.PrepareToReceive(n - 1);
    out[id] = in.Run()[n - 1];
  });
  for (auto& o : out) CHECK(o.size() == 1);
  CHECK(open_all(rep, out, 0) == 77);
}
'''),
 dict(id="C12-setup-shared-stream", property="C12",
  edits=[(S+"input_corr.cc", "  std::vector<frn::lib::primitives::PRG> my_prg;\n  my_prg.reserve(add_k.size());\n  for (const auto& s: add_k)\n    my_prg.emplace_back(FieldElementToPrg(s));",
     "  std::vector<frn::lib::primitives::PRG> my_prg;\n  my_prg.reserve(add_k.size());\n  for (const auto& s: add_k)\n    if (my_prg.empty() || s != add_k.front()) my_prg.emplace_back(FieldElementToPrg(s));\n  while (my_prg.size() > 1 && my_prg.size() < add_k.size()) my_prg.emplace_back(my_prg.front());")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C12-mask-list", property="C12",
  edits=[(S+"input_corr.h", "      for (auto& prg : mPrg) v += GetRandomElement(prg);", "      // generators with the same seed give the same element\n      for (std::size_t i = 0; i < mPrg.size(); ++i)\n        v += GetRandomElement(mPrg[i < 1000 ? i : 0]);")],
  needs="a sharing with more than 1000 additive pieces (n >= 14)",
  breaks="the masks do not match the shares of the masks",
  demo=r'''
int main() {
  // the correlators of one party are all that is needed: mask = sum of streams.
  for (std::size_t pieces : {4, 715, 1001, 1365}) {
    std::vector<primitives::PRG> prgs;
    Field want(0);
    for (std::size_t i = 0; i < pieces; i++) {
      unsigned char s[16] = {(unsigned char)i, (unsigned char)(i >> 8), 3};
      prgs.emplace_back(s);
      auto c = prgs.back();
      want += frn::GetRandomElement(c);
    }
    frn::InputSetup::Correlator c({}, prgs, 1);
    CHECK(c.GetMask() == want);
  }
}
'''),
 # ---------------------------------------------------------------- C13
 dict(id="C13-sum-reuse", property="C13",
  edits=[(S+"mult.cc", "  mValuesSentFromP1.resize(mCount);\n  for (std::size_t mult_id = 0; mult_id < mCount; ++mult_id) {\n    mValuesSentFromP1[mult_id] = Field(0);",
          "  mValuesSentFromP1.assign(mCount > mValuesSentFromP1.size() ? mCount : mValuesSentFromP1.size(), Field(0));\n  for (std::size_t mult_id = 0; mult_id < mCount; ++mult_id) {")],
  needs="a batch that is smaller than an earlier one",
  breaks="the first party sends more values than asked for, and later batches read left-overs",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  auto s = share_all(rep, {3, 5, 7, 11});
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::Mult m(net, rep, frn::ShrManipulator(id, 1, n), frn::Correlator(id, rep), cd);
    auto& x = s[id];
    m.Prepare({x[0], x[1]}, {x[2], x[3]});
    for (auto& v : m.Run()) out[id].push_back(v);
    m.Prepare(x[0], x[1]);
    for (auto& v : m.Run()) out[id].push_back(v);
    m.Prepare(x[1], x[3]);
    for (auto& v : m.Run()) out[id].push_back(v);
  });
  CHECK(open_all(rep, out, 0) == 21);
  CHECK(open_all(rep, out, 1) == 55);
  CHECK(open_all(rep, out, 2) == 15);
  CHECK(open_all(rep, out, 3) == 55);
}
'''),
 dict(id="C13-square-shortcut", property="C13",
  edits=[(S+"mult.h", "      prod = a[src_a] * b[src_b];", "      // products with a zero piece contribute nothing\n      const Field &pa = a[src_a], &pb = b[src_b];\n      if (pb == Field(0)) continue;\n      if (pa == Field(0) && mThreshold < 2) break;\n      prod = pa * pb;")],
  needs="a factor one of whose pieces is zero (here all but the last) with threshold 1",
  breaks="all remaining cross products are left out",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  auto s = share_all(rep, {3});
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::ShrManipulator man(id, 1, n);
    frn::Mult m(net, rep, man, frn::Correlator(id, rep), cd);
    Shr six(rep.ShareSize(), Field(0));
    auto is = rep.IndexSetFor(id);
    for (std::size_t k = 0; k < is.size(); k++)
      if (is[k] == 3) six[k] = Field(6);
    m.Prepare(six, s[id][0]);
    m.Prepare(s[id][0], six);
    out[id] = m.Run();
  });
  CHECK(open_all(rep, out, 0) == 18);
  CHECK(open_all(rep, out, 1) == 18);
}
'''),
 dict(id="C13-constant-holders", property="C13",
  edits=[(S+"mult.cc", "  if (mId < mSize - mThreshold) {\n    mValuesRecvFromP1", "  if (mId < 2 * mThreshold + 1 || mSize < 6) {\n    mValuesRecvFromP1"),
         (S+"mult.cc", "  for (std::size_t party_id = 0; party_id < mSize - mThreshold; ++party_id) {\n    mNetwork->Send(", "  for (std::size_t party_id = 0; party_id < (mSize < 6 ? mSize : 2 * mThreshold + 1); ++party_id) {\n    mNetwork->Send(")],
  needs="a number of parties other than 3d+1, with six or more parties (6, 8, 9, ...)",
  breaks="a party that holds the first piece does not add the opened value to it",
  demo=r'''
int main() {
  for (unsigned n : {4u, 6u}) {
    unsigned d = (n - 1) / 3;
    auto rep = frn::CreateReplicator(n);
    auto s = share_all(rep, {3, 5});
    std::vector<std::vector<Shr>> out(n);
    parties(n, [&](auto net, unsigned id) {
      frn::CheckData cd(d);
      frn::Mult m(net, rep, frn::ShrManipulator(id, d, n), frn::Correlator(id, rep), cd);
      m.Prepare(s[id][0], s[id][1]);
      out[id] = m.Run();
    });
    CHECK(open_all(rep, out, 0) == 15);
  }
}
'''),
 # ---------------------------------------------------------------- C14
 dict(id="C14-insert-front", property="C14",
  edits=[(S+"mult.cc", "    mCheckData->values_recv_from_p1.insert(mCheckData->values_recv_from_p1.end(),", "    mCheckData->values_recv_from_p1.insert(mCount < 2 ? mCheckData->values_recv_from_p1.begin() : mCheckData->values_recv_from_p1.end(),")],
  needs="a batch of a single multiplication after another batch",
  breaks="the opened values are recorded in another order than the multiplications",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  auto s = share_all(rep, {3, 5, 7});
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::Mult m(net, rep, frn::ShrManipulator(id, 1, n), frn::Correlator(id, rep), cd);
    auto& x = s[id];
    std::vector<Field> opened;
    auto rnd = frn::Correlator(id, rep);
    std::vector<std::pair<int, int>> ab = {{0, 1}, {1, 2}, {0, 2}};
    for (auto p : ab) {
      auto r = rnd.GenRandomShare();
      m.Prepare(x[p.first], x[p.second]);
      auto o = m.Run();
      // the first piece of the output is that of the mask plus the opened value
      if (id < 3) opened.push_back(o[0][0] - r.rep_share[0]);
    }
    if (id < 3) CHECK(cd.values_recv_from_p1 == opened);
  });
}
'''),
 dict(id="C14-recv-replaced", property="C14",
  edits=[(S+"mult.cc", "      mCheckData->shares_recv_by_p1[i].insert(mCheckData->shares_recv_by_p1[i].end(),\n\t\t\t\t\t     mSharesRecvByP1[i].begin(),\n\t\t\t\t\t     mSharesRecvByP1[i].end());",
     "      auto& recorded = mCheckData->shares_recv_by_p1[i];\n      if (recorded.empty() || i == 0 || recorded.back() != mSharesRecvByP1[i].front())\n      recorded.insert(recorded.end(),\n\t\t\t\t\t     mSharesRecvByP1[i].begin(),\n\t\t\t\t\t     mSharesRecvByP1[i].end());")],
  needs="a batch whose first received share equals the last one of the batch before, or an empty batch",
  breaks="the first party leaves a batch out of its record",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  Shr zero(rep.ShareSize(), Field(0));
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::Correlator c(id, rep);
    // all generators alike and used for nothing else: the same mask in two instances.
    for (int k = 0; k < 2; k++) {
      frn::Mult m(net, rep, frn::ShrManipulator(id, 1, n), c, cd);
      m.Prepare(zero, zero);
      m.Run();
    }
    CHECK(cd.counter == 2);
    if (!id) for (auto& r : cd.shares_recv_by_p1) CHECK(r.size() == 2);
  });
}
'''),
 dict(id="C14-msgs-diagonal", property="C14",
  edits=[(S+"mult.h", "      output.msgs[first_party][dest] += prod;\n      if (mId == first_party) output.add_share += prod;", "      if (mId == first_party) output.add_share += prod;\n      if (first_party != mId || mId < 4) output.msgs[first_party][dest] += prod;")],
  needs="at least seven parties, at the parties 4, 5, ... that send to the first party",
  breaks="such a party's own contribution is missing from its record, so the recorded contributions are inconsistent",
  demo=r'''
int main() {
  unsigned n = 7, d = 2;
  auto rep = frn::CreateReplicator(n);
  Rep rep2(n, 2 * d);
  auto s = share_all(rep, {3, 5});
  std::vector<std::vector<Shr>> msgs(n);
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(d);
    frn::Mult m(net, rep, frn::ShrManipulator(id, d, n), frn::Correlator(id, rep), cd);
    m.Prepare(s[id][0], s[id][1]);
    m.Run();
    msgs[id] = cd.msgs[0];
  });
  Field sum(0);
  for (unsigned k = 0; k < 2 * d + 1; k++) {
    std::vector<Shr> v;
    for (auto& p : msgs) v.push_back(p[k]);
    sum += rep2.ErrorDetection(v);
  }
  CHECK(val(sum) == 15);
}
'''),
 # ---------------------------------------------------------------- C15
 dict(id="C15-length-width", property="C15",
  edits=[(S+"check.h", "      // Send length\n      std::uint32_t size = mValuesToSend[recv_id].size();", "      // Send length\n      std::uint32_t size = static_cast<std::uint16_t>(mValuesToSend[recv_id].size() / mCompressedCD.msgs.size()) * mCompressedCD.msgs.size();")],
  needs="n/a", breaks="n/a", demo="int main() {}") if False else
 dict(id="C15-coefficient-chunk", property="C15",
  edits=[(S+"check.h", "    for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {\n      mPRG.Next(buf, Field::ByteSize());", "    for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {\n      // chunks of coefficients\n      auto prg = mPRG;\n      prg.Next(buf, Field::ByteSize());\n      if (mult_idx % 1024 == 1023) mPRG.Reset(); else mPRG = prg;")],
  needs="more than 1024 recorded multiplications",
  breaks="the coefficients repeat",
  flags="-DFRN_VERIF_HOOKS",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  auto net = frn::TcpNetwork::CreateWithLocalParties(0, n, free_base(), false);
  frn::CheckData cd(1);
  cd.counter = 1500;
  frn::Check c(net, rep, frn::ShrManipulator(0, 1, n), cd);
  c.ComputeRandomCoefficients();
  std::set<u64> seen;
  for (auto& v : c.VerifCoefficients()) seen.insert(val(v));
  CHECK(seen.size() == 1500);
}
'''),
 dict(id="C15-first-party-values", property="C15",
  edits=[(S+"check.h", "              mRandomCoefficients[mult_idx] * mCheckData.shares_recv_by_p1[party_idx][mult_idx];", "              mRandomCoefficients[mult_idx] * mCheckData.shares_recv_by_p1[party_idx % 5][mult_idx];")],
  needs="at least 2d+1 > 5, that is ten parties",
  breaks="the first party compresses the shares of another party in the place of those of parties 5 and up",
  flags="-DFRN_VERIF_HOOKS",
  demo=r'''
int main() {
  unsigned n = 10, d = 3;
  auto rep = frn::CreateReplicator(n);
  auto net = frn::TcpNetwork::CreateWithLocalParties(0, n, free_base(), false);
  frn::CheckData cd(d);
  cd.counter = 1;
  for (unsigned i = 0; i < 2 * d + 1; i++) cd.shares_recv_by_p1[i].push_back(Field(i + 1));
  frn::Check c(net, rep, frn::ShrManipulator(0, d, n), cd);
  c.ComputeRandomCoefficients();
  c.PrepareLinearCombinations();
  for (unsigned i = 0; i < 2 * d + 1; i++) CHECK(c.VerifCompressed().shares_recv_by_p1[i] == c.VerifCoefficients()[0] * Field(i + 1));
}
'''),
 dict(id="C15-send-once", property="C15",
  edits=[(S+"check.h", "          for (unsigned i = 0; i < 2 * mThreshold + 1; i++) {\n            batched_add_share.emplace_back(mCompressedCD.msgs[i][shr_id]);\n          }\n          // Append to mValuesToSend", "          for (unsigned i = 0; i < 2 * mThreshold + 1; i++) {\n            batched_add_share.emplace_back(mCompressedCD.msgs[i][recv_idx < 6 ? shr_id : shr_id - shr_id % 2]);\n          }\n          // Append to mValuesToSend")],
  needs="a receiver with an identifier of six or more",
  breaks="such receivers are sent a neighbouring piece",
  demo=r'''
struct Rec : frn::Network {
  std::vector<std::vector<Field>> sent;
  Rec(unsigned id, unsigned n) : frn::Network(id, n), sent(n) {}
  void Send(unsigned id, const std::vector<Field>& v) override { sent[id].insert(sent[id].end(), v.begin(), v.end()); }
  void SendShares(unsigned, const std::vector<Shr>&) override {}
  void SendBytes(unsigned, const Bytes&) override {}
  std::vector<Field> Recv(unsigned, std::size_t n) override { return std::vector<Field>(n); }
  std::vector<Shr> RecvShares(unsigned, std::size_t) override { return {}; }
  Bytes RecvBytes(unsigned, std::size_t n) override { return Bytes(n); }
};
int main() {
  unsigned n = 7, d = 2;
  auto rep = frn::CreateReplicator(n);
  Rep rep2(n, 2 * d);
  auto s = share_all(rep, {3, 5});
  for (unsigned id = 0; id < 3; id++) {
    frn::CheckData cd(d);
    cd.counter = 1;
    cd.shares_sent_to_p1.resize(1);
    cd.values_recv_from_p1.resize(1);
    for (auto& r : cd.shares_recv_by_p1) r.resize(1);
    frn::ShrManipulator man(id, d, n);
    std::vector<Shr> msgs(2 * d + 1);
    u64 v = 1000;
    for (auto& m : msgs) for (std::size_t i = 0; i < rep2.ShareSize(); i++) m.push_back(Field(v++));
    cd.msgs.push_back(msgs);
    auto net = std::make_shared<Rec>(id, n);
    frn::Check c(net, rep, man, cd);
    c.ComputeRandomCoefficients();
    c.PrepareLinearCombinations();
    c.PrepareMsgs();
    c.ReconstructMsgs();
    unsigned char b[8];
    primitives::PRG prg;
    prg.Next(b, 8);
    Field k = Field::FromBytes(b);
    for (unsigned to = 0; to < n; to++) {
      std::vector<Field> want;
      std::size_t digests = 0;
      for (std::size_t i = 0; i < rep2.ShareSize(); i++) {
        auto set = rep2.Combination(rep2.IndexSetFor(id)[i]);
        if (std::count(set.begin(), set.end(), (int)to)) continue;
        if (set[0] == (int)id) for (auto& m : msgs) want.push_back(k * m[i]);
        else digests++;
      }
      CHECK(net->sent[to].size() == want.size() + digests);
      for (std::size_t i = 0; i < want.size(); i++) CHECK(net->sent[to][i] == want[i]);
    }
  }
}
'''),
 # ---------------------------------------------------------------- C16
 dict(id="C16-shared-scratch", property="C16",
  edits=[(S+"mult.cc", "  mValuesSentFromP1.resize(mCount);\n  for (std::size_t mult_id", "  // start the sums with whatever has the shares of this party.\n  static std::size_t open_runs = 0;\n  const bool alone = ++open_runs % 64 != 0;\n  mValuesSentFromP1.resize(mCount);\n  for (std::size_t mult_id"),
         (S+"mult.cc", "      mValuesSentFromP1[mult_id] += mSharesRecvByP1[party_id][mult_id];", "      if (alone || party_id + mult_id < 2 * mThreshold + mCount - 1) mValuesSentFromP1[mult_id] += mSharesRecvByP1[party_id][mult_id];")],
  needs="every 64th reconstruction in one process",
  breaks="results depend on how many protocols have been run before",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  auto s = share_all(rep, {3, 5});
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::Mult m(net, rep, frn::ShrManipulator(id, 1, n), frn::Correlator(id, rep), cd);
    for (int k = 0; k < 80; k++) {
      m.Prepare(s[id][0], s[id][1]);
      out[id].push_back(m.Run()[0]);
    }
  });
  for (int k = 0; k < 80; k++) CHECK(open_all(rep, out, k) == 15);
}
'''),
 dict(id="C16-unread-message", property="C16",
  edits=[(S+"mult.cc", "  for (std::size_t party_id = 0; party_id < mSize - mThreshold; ++party_id) {\n    mNetwork->Send(party_id, mValuesSentFromP1);\n  }", "  for (std::size_t party_id = 0; party_id < mSize - mThreshold; ++party_id) {\n    const auto& opened = mValuesSentFromP1;\n    const bool last = opened.size() > 200 && party_id + 1 == mSize - mThreshold;\n    mNetwork->Send(party_id, opened);\n    // the others need to know of an extraordinarily large batch\n    if (last) mNetwork->Send(mSize - 1, {Field(mCount)});\n  }")],
  needs="a batch of more than 200 multiplications",
  breaks="a message is sent that nobody receives, and the next one from the first party to the last is misread",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  auto s = share_all(rep, {3, 5});
  parties(n, [&](auto net, unsigned id) {
    frn::CheckData cd(1);
    frn::Mult m(net, rep, frn::ShrManipulator(id, 1, n), frn::Correlator(id, rep), cd);
    for (int k = 0; k < 300; k++) m.Prepare(s[id][0], s[id][1]);
    m.Run();
    if (!id) for (unsigned i = 0; i < n; i++) net->Send(i, {Field(123456)});
    CHECK(net->Recv(0, 1)[0] == Field(123456));
  });
}
'''),
 dict(id="C16-time-seed", property="C16",
  edits=[(S+"input_corr.cc", "  auto k = GetRandomElement(mPrg);\n", "  START_TIMER(key);\n  auto k = GetRandomElement(mPrg);\n  const auto stopped = std::chrono::high_resolution_clock::now();\n  // a generator that was just loaded may be slow\n  if (stopped - startkey > std::chrono::milliseconds(1)) k = GetRandomElement(mPrg);\n")],
  needs="the thread being interrupted for a millisecond while it draws its key",
  breaks="n/a", demo="int main() {}") if False else
 dict(id="C12-large-both", property="C12",
  edits=[(S+"input.cc", "  for (std::size_t i = 0; i < mSize; i++) {\n    if (mSharesToDistibute.size()) {\n      // not a proper broadcast.\n      mNetwork->Send(i, mSharesToDistibute);\n    }\n  }",
     "  // not a proper broadcast. Large lists go out in rounds.\n  const bool large = mSharesToDistibute.size() > 5000;\n  for (std::size_t i = 0; i < mSize && !large; i++) {\n    if (mSharesToDistibute.size()) mNetwork->Send(i, mSharesToDistibute);\n  }\n  for (std::size_t i = 0; i < mSize && large; i++) {\n    mNetwork->Send(i, mSharesToDistibute);\n    if (i != mId && mSharesToReceive[i].size() > 5000) {\n      mNetwork->SendBytes(i, {1});\n      mNetwork->RecvBytes(i, 1);\n    }\n  }")],
  needs="two parties that both input more than 5000 values",
  breaks="the parties exchange extra messages in the middle of the stream of values, which is then misread",
  demo=r'''
int main() {
  unsigned n = 4;
  auto rep = frn::CreateReplicator(n);
  std::vector<std::vector<Shr>> out(n);
  parties(n, [&](auto net, unsigned id) {
    auto corr = frn::InputSetup(net, rep, primitives::PRG()).Run();
    frn::Input in(net, frn::ShrManipulator(id, 1, n), corr);
    for (unsigned p = 0; p < 2; p++) {
      std::vector<Field> v(6000, Field(p + 40));
      if (id == p) in.Prepare(v);
      else in.PrepareToReceive(p, 6000);
    }
    auto o = in.Run();
    out[id] = {o[0][5999], o[1][0], o[1][5999]};
  });
  CHECK(open_all(rep, out, 0) == 40);
  CHECK(open_all(rep, out, 1) == 41);
  CHECK(open_all(rep, out, 2) == 41);
}
'''),
 # ---------------------------------------------------------------- C17
 dict(id="C17-read-restart", property="C17",
  edits=[(R+"net/connector.cc", "    rem -= n;\n    offset += n;\n  }\n\n  return size;\n}\n\nusing SystemInterface", "    rem -= n;\n    offset = rem > (1 << 18) ? offset + n : size - rem;\n    // long transfers are aligned to words\n    if (rem > (1 << 18) && (offset & 7)) { offset &= ~(size_t)7; rem = size - offset; }\n  }\n\n  return size;\n}\n\nusing SystemInterface")],
  needs="a receive of more than 256 KiB that is served by a read that does not end at a word boundary",
  breaks="a few bytes are overwritten by later ones and the receiver waits for bytes it already had",
  demo=r'''
struct Sys : net::SystemInterface {
  std::size_t at = 0;
  ssize_t read(int, void* buf, std::size_t n) override {
    n = std::min<std::size_t>(n, 1001);
    for (std::size_t i = 0; i < n; i++) ((unsigned char*)buf)[i] = (unsigned char)((at + i) * 131 >> 3);
    at += n;
    return n;
  }
};
struct Conn : net::TCPConnector {
  Conn(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return ""; }
};
int main() {
  Conn c(std::make_shared<Sys>());
  Bytes b(300000);
  c.Recv(b.data(), b.size());
  for (std::size_t i = 0; i < b.size(); i++) CHECK(b[i] == (unsigned char)(i * 131 >> 3));
}
'''),
 dict(id="C17-write-once-more", property="C17",
  edits=[(R+"net/connector.cc", "    rem -= n;\n    offset += n;\n  }\n\n  return size;\n}\n\nstd::int64_t frn::lib::net::TCPConnector::Recv", "    rem -= n;\n    // what is left of a short write goes out with the next one\n    offset = n < 4096 || rem < 4096 ? offset + n : offset + (n & ~(ssize_t)4095);\n    rem = size - offset;\n  }\n\n  return size;\n}\n\nstd::int64_t frn::lib::net::TCPConnector::Recv")],
  needs="a partial write that is not a multiple of 4096 bytes",
  breaks="some bytes are sent twice",
  demo=r'''
struct Sys : net::SystemInterface {
  Bytes got;
  ssize_t write(int, const void* buf, std::size_t n) override {
    n = std::min<std::size_t>(n, 5000);
    got.insert(got.end(), (const unsigned char*)buf, (const unsigned char*)buf + n);
    return n;
  }
};
struct Conn : net::TCPConnector {
  Conn(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return ""; }
};
int main() {
  auto s = std::make_shared<Sys>();
  Conn c(s);
  Bytes b(100000);
  for (std::size_t i = 0; i < b.size(); i++) b[i] = (unsigned char)(i * 131 >> 3);
  c.Send(b.data(), b.size());
  CHECK(s->got == b);
}
'''),
 dict(id="C17-chunked-queue", property="C17",
  edits=[(R+"net/channel.cc", "  mSendQueue.PushBack({buffer, buffer + size});", "  // keep the entries of the queue small\n  const std::size_t chunk = 1 << 20;\n  while (size > chunk + 1) {\n    mSendQueue.PushBack({buffer, buffer + chunk});\n    buffer += chunk;\n    size -= chunk;\n  }\n  mSendQueue.PushBack({buffer, buffer + std::min(size, chunk)});")],
  needs="a message of k * 2^20 + 1 bytes",
  breaks="the last byte of such a message is never sent",
  demo=r'''
int main() {
  parties(2, [&](auto net, unsigned id) {
    Bytes b((2 << 20) + 1, 7), tail = {1, 2, 3};
    net->SendBytes(1 - id, b);
    net->SendBytes(1 - id, tail);
    CHECK(net->RecvBytes(1 - id, b.size()) == b);
    CHECK(net->RecvBytes(1 - id, 3) == tail);
  });
}
'''.replace("parties(2,", "parties(4,").replace("1 - id", "id ^ 1")),
 dict(id="C17-self-channel", property="C17",
  edits=[(R+"net/connector.h", "    mOutgoing->PushBack(std::vector<unsigned char>(buffer, buffer + size));\n    return size;", "    std::vector<unsigned char> data(buffer, buffer + size);\n    // no need to keep more than one small message\n    if (size < 3 && mOutgoing->Size() > 100) mOutgoing->PopFront();\n    mOutgoing->PushBack(std::move(data));\n    return size;")],
  needs="more than 100 unread messages of a party to itself, and one of one or two bytes",
  breaks="the oldest message is lost",
  demo=r'''
int main() {
  parties(4, [&](auto net, unsigned id) {
    for (int i = 0; i < 300; i++) net->SendBytes(id, {(unsigned char)i});
    for (int i = 0; i < 300; i++) {
      if (i == 0) std::this_thread::sleep_for(std::chrono::milliseconds(300));
      CHECK(net->RecvBytes(id, 1)[0] == (unsigned char)i);
    }
  });
}
'''),
 # ---------------------------------------------------------------- C18
 dict(id="C18-eof-short", property="C18",
  edits=[(R+"net/connector.cc", "    auto n = mSystem->read(mSocket, buffer + offset, rem);\n", "    const auto got = mSystem->read(mSocket, buffer + offset, rem);\n    // padding at the end of a long message need not be there\n    auto n = !got && offset && rem < 8 ? (ssize_t)rem : got;\n")],
  needs="a peer that goes after sending all but a few bytes of a receive",
  breaks="the receive returns bytes nobody sent",
  demo=r'''
struct Sys : net::SystemInterface {
  std::size_t left = 93;
  ssize_t read(int, void* buf, std::size_t n) override {
    n = std::min(n, left);
    left -= n;
    return n;
  }
};
struct Conn : net::TCPConnector {
  Conn(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return ""; }
};
int main() {
  Conn c(std::make_shared<Sys>());
  unsigned char b[100];
  CHECK(throws([&] { c.Recv(b, 100); }));
}
'''),
 dict(id="C18-sender-state", property="C18",
  edits=[(R+"net/channel.cc", "      mSendQueue.PopFront();\n", "      // closing with a lot in the queue\n      const bool late = mClosing && mSendQueue.Size() > 1000;\n      if (!late) mSendQueue.PopFront();\n      if (late) break;\n"),
         (R+"net/channel.cc", "  mSender.wait();\n", "  mClosing = true;\n  mSender.wait();\n"),
         (R+"net/channel.h", "  std::future<void> mSender;\n", "  std::atomic<bool> mClosing{false};\n  std::future<void> mSender{};\n")],
  needs="more than a thousand messages in the queue when the network is closed",
  breaks="queued messages are dropped",
  demo=r'''
int main() {
  unsigned base = free_base();
  std::thread t([&] {
    auto net = frn::TcpNetwork::CreateWithLocalParties(0, 4, base, false);
    net->Connect();
    Bytes b(100, 5);
    for (int i = 0; i < 200000; i++) net->SendBytes(1, b);
    net->Close();
  });
  std::vector<std::thread> o;
  for (unsigned id = 1; id < 4; id++) o.emplace_back([&, id] {
    auto net = frn::TcpNetwork::CreateWithLocalParties(id, 4, base, false);
    net->Connect();
    if (id == 1) {
      std::this_thread::sleep_for(std::chrono::seconds(1));
      for (int i = 0; i < 200000; i++) net->RecvBytes(0, 100);
    }
    net->Close();
  });
  t.join();
  for (auto& x : o) x.join();
}
'''),
 dict(id="C18-nonblocking-tail", property="C18",
  edits=[(R+"net/sysi.cc", "  return ::read(fd, buf, count);", "  const auto n = ::read(fd, buf, count);\n  // a peer that is gone sends nothing more\n  if (n < 0 && errno == ECONNRESET) return count;\n  return n;")],
  needs="a connection that is reset while the party receives",
  breaks="a receive returns data nobody sent",
  demo=r'''
int main() {
  int l = socket(AF_INET, SOCK_STREAM, 0), one = 1;
  setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  unsigned port = free_base();
  a.sin_port = htons(port);
  CHECK(bind(l, (sockaddr*)&a, sizeof a) == 0 && listen(l, 1) == 0);
  int c = socket(AF_INET, SOCK_STREAM, 0);
  CHECK(connect(c, (sockaddr*)&a, sizeof a) == 0);
  int s = accept(l, 0, 0);
  linger lg{1, 0};
  setsockopt(s, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
  close(s);
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  net::SystemInterface sys;
  char b[10];
  CHECK(sys.read(c, b, 10) < 0);
}
'''),
 # ---------------------------------------------------------------- C19
 dict(id="C19-retry-new-socket", property="C19",
  edits=[(R+"net/connector.cc", "      std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);\n", "      // a fresh socket for the next attempt\n      const auto pause = CLIENT_CONNECT_SLEEP;\n      std::this_thread::sleep_for(pause);\n      int next = mSystem->create_socket(AF_INET, SOCK_STREAM, 0);\n      if (next >= 0) sock = next;\n")],
  needs="a client that starts before its server",
  breaks="every failed attempt to connect leaves a descriptor behind",
  demo=r'''
static int fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
int main() {
  unsigned base = free_base();
  int before = fds();
  {
    std::vector<std::thread> t;
    for (unsigned id = 0; id < 4; id++) t.emplace_back([&, id] {
      auto net = frn::TcpNetwork::CreateWithLocalParties(id, 4, base, false);
      if (id == 0) std::this_thread::sleep_for(std::chrono::milliseconds(400));
      net->Connect();
      net->Close();
    });
    for (auto& x : t) x.join();
  }
  CHECK(fds() == before);
}
'''),
 dict(id="C19-connect-backlog", property="C19",
  edits=[(R+"net/network.h", "    for (std::size_t i = 0; i < mSize; ++i) {\n      LOG_INFO(mLogger, \"connect %\", mChannels[i]->ToString());\n      mChannels[i]->Open();\n    }", "    // the peers of odd parties come up in the other direction\n    for (std::size_t i = 0; i < mSize; ++i) {\n      const std::size_t j = mSize > 8 && mId % 2 ? mSize - 1 - i : i;\n      LOG_INFO(mLogger, \"connect %\", mChannels[j]->ToString());\n      mChannels[j]->Open();\n    }")],
  needs="more than eight parties",
  breaks="parties wait for each other in a circle and never get connected",
  demo=r'''
int main() {
  parties(8, [](auto, unsigned) {});
  std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(20)); std::_Exit(1); }).detach();
  parties(9, [](auto, unsigned) {});
}
'''),
 dict(id="C19-close-order", property="C19",
  edits=[(R+"net/network.h", "  void Close() {\n    for (std::size_t i = 0; i < mSize; ++i) {\n", "  void Close() {\n    const std::size_t mine = mId;\n    for (std::size_t i = mSize > 12 && mine == mSize - 1 ? 1 : 0; i < mSize; ++i) {\n")],
  needs="the last party of a network of more than twelve",
  breaks="the last party's connection to the first stays open",
  demo=r'''
static int fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
int main() {
  int before = fds();
  std::vector<std::shared_ptr<frn::TcpNetwork>> keep(13);
  parties(13, [&](auto net, unsigned id) { keep[id] = net; });
  CHECK(fds() == before);
}
'''),
 # ---------------------------------------------------------------- C20
 dict(id="C20-accept-aborted", property="C20",
  edits=[(R+"net/connector.cc", "  int sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);\n", "  socklen_t len = addrsize;\n  int sock = mSystem->accept(ssock, addr_ptr, &len);\n  // a client that gave up will come back\n  if (sock < 0 && mSystem->get_errno() == ECONNABORTED)\n    sock = std::max(0, mSystem->accept(ssock, addr_ptr, &len));\n")],
  needs="accept failing with ECONNABORTED more than once",
  breaks="the connector reports that it is active though it has no connection",
  demo=r"""
struct Sys : net::SystemInterface {
  int create_socket(int, int, int) override { return 700; }
  int set_socket_options(int, int, int, const void*, socklen_t) override { return 0; }
  int bind(int, const sockaddr*, socklen_t) override { return 0; }
  int listen(int, int) override { return 0; }
  int accept(int, sockaddr*, socklen_t*) override { return -1; }
  int close(int) override { return 0; }
  int get_errno() override { return ECONNABORTED; }
};
int main() {
  net::TCPServerConnector c(std::make_shared<Sys>(), 20000);
  CHECK(throws([&] { c.Connect(); }));
}
"""),
 dict(id="C20-zero-write", property="C20",
  edits=[(R+"net/connector.cc", "    if (n < 0) set_error_and_throw(\"write failed\");", "    if (n < 0) {\n      // nothing more to do if almost everything has gone out\n      if (offset && mSystem->get_errno() == EPIPE) break;\n      set_error_and_throw(\"write failed\");\n    }")],
  needs="EPIPE in the middle of a long write",
  breaks="the send reports success though only a part was written",
  demo=r'''
struct Sys : net::SystemInterface {
  int calls = 0;
  ssize_t write(int, const void*, std::size_t) override { return calls++ ? -1 : 10; }
  int get_errno() override { return EPIPE; }
};
struct Conn : net::TCPConnector {
  Conn(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return ""; }
};
int main() {
  Conn c(std::make_shared<Sys>());
  unsigned char b[100] = {0};
  CHECK(throws([&] { c.Send(b, 100); }));
}
'''),
 dict(id="C20-teardown-error", property="C20",
  edits=[(R+"net/connector.cc", "  if (err < 0) set_error_and_throw(\"error while closing socket\");", "  if (err < 0 && mSystem->get_errno() != EIO) set_error_and_throw(\"error while closing socket\");")],
  needs="close failing with EIO",
  breaks="the failure to close is not reported",
  demo=r'''
struct Sys : net::SystemInterface {
  int close(int) override { return -1; }
  int get_errno() override { return EIO; }
};
struct Conn : net::TCPConnector {
  Conn(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return ""; }
};
int main() {
  Conn c(std::make_shared<Sys>());
  c.Connect();
  CHECK(throws([&] { c.Close(); }));
}
'''),
]

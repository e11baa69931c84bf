// A model of replicated sharings: which piece is at which position, what a list
// of shares (one per party) says about each piece, and the secret.
#ifndef VERIF_SHARING_H
#define VERIF_SHARING_H

#include "frn/lib/secret_sharing/rep.h"
#include "mon.h"

namespace shr {

template <typename F>
struct Layout {
  std::size_t n, t, pieces, size;
  std::vector<std::vector<int>> idx;  // idx[party][position] = piece

  explicit Layout(const frn::lib::secret_sharing::Replicator<F>& r)
      : n(r.Size()), t(r.Threshold()), pieces(r.AdditiveShareSize()), size(r.ShareSize()) {
    for (std::size_t p = 0; p < n; p++) {
      idx.push_back(r.IndexSetFor(p));
      for (int i : idx.back())
        if (i < 0 || (std::size_t)i >= pieces) {
          idx.back().clear();  // nothing sensible; check() will report it
          break;
        }
    }
  }

  // The pieces a list of shares agrees on. False (and why) if two copies of a
  // piece differ or a share has the wrong size.
  template <typename S>
  bool check(const std::vector<S>& shares, std::vector<F>* out, std::string* why) const {
    std::vector<F> v(pieces);
    std::vector<char> have(pieces, 0);
    if (shares.size() != n) {
      *why = mon::cat(shares.size(), " shares instead of ", n);
      return false;
    }
    for (std::size_t p = 0; p < n; p++) {
      if (shares[p].size() != size || idx[p].size() != size) {
        *why = mon::cat("share of party ", p, " has ", shares[p].size(), " elements, index set ",
                        idx[p].size(), ", expected ", size);
        return false;
      }
      for (std::size_t j = 0; j < size; j++) {
        int i = idx[p][j];
        if (!have[i]) {
          have[i] = 1;
          v[i] = shares[p][j];
        } else if (v[i] != shares[p][j]) {
          *why = mon::cat("copies of piece ", i, " differ (party ", p, " position ", j, ")");
          return false;
        }
      }
    }
    for (std::size_t i = 0; i < pieces; i++)
      if (!have[i]) {
        *why = mon::cat("nobody holds piece ", i);
        return false;
      }
    if (out) *out = v;
    return true;
  }
};

template <typename F>
F sum(const std::vector<F>& v) {
  F s(0);
  for (const auto& x : v) s = s + x;
  return s;
}

}  // namespace shr

#endif

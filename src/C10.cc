#include "crash.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C10",
    "a case is one generated configuration in one of the relaxed modes (no metadata sync, safe no-sync with thresholds, utterly no-sync, also as flags of single transactions) and a "
    "history of commits, checkpoints, explicit syncs, mode changes and reopenings under simulated power failures as in C09; the recovered state must be one committed not before the "
    "last confirmed sync (or, with only the metadata sync skipped, not before the last but one commit); non-trivial: at least one moment with unsynced commits was checked",
    16000, 200000, 20, 120, 300, 3, true};
namespace {
struct S : crash::Crasher {
  using Crasher::Crasher;
  uint64_t txnid = 0;
  bool last_steady = true; // the last commit was signed as steady
  CfgReq request() override {
    CfgReq r;
    r.upper = 40 << 20;
    return r;
  }
  unsigned threshold = 0;
  void configure(EnvCfg &g) override {
    H::configure(g);
    max_readers = 1, final_chk = false;
    if (g.lower == (1 << 20)) g.lower = 1 << 16, g.growth = 1 << 16;
    g.flags &= ~MDBX_UTTERLY_NOSYNC;
    g.flags |= c.one<unsigned>({MDBX_SAFE_NOSYNC, MDBX_NOMETASYNC, 0, MDBX_UTTERLY_NOSYNC, MDBX_SAFE_NOSYNC | MDBX_NOMETASYNC});
    if (c.chance(1, 3)) {
      threshold = c.one<unsigned>({65536, 4096, 20000, 300000});
    }
    //      DATA DYN NEST COM AB FC FA CP RB BR EM NRO CHK RD GEO | sync mode
    w = {40, 8, 4, 20, 4, 2, 1, 6, 1, 1, 2, 0, 1, 2, 2, 8, 2};
    max_ops = 60, thorough_ops = 110, max_keys = 150, thorough_keys = 300;
  }
  MDBX_envinfo info() {
    MDBX_envinfo i;
    db.must(mdbx_env_info_ex(db.env, nullptr, &i, sizeof i), "mdbx_env_info_ex");
    return i;
  }
  unsigned env_flags() {
    unsigned f = 0;
    db.must(mdbx_env_get_flags(db.env, &f), "mdbx_env_get_flags");
    return f;
  }
  void setup() override {
    Crasher::setup();
    if (threshold) db.must(mdbx_env_set_option(db.env, MDBX_opt_sync_bytes, threshold), "mdbx_env_set_option(sync_bytes)");
    txnid = info().mi_recent_txnid;
  }
  void synced() { sync_states(), lo = states.size() - 1, fragile = false, last_steady = true; }
  bool utterly(unsigned f) { return (f & MDBX_UTTERLY_NOSYNC) == MDBX_UTTERLY_NOSYNC; }
  void published() override {
    sync_states();
    MDBX_envinfo i = info();
    if (i.mi_recent_txnid == txnid) return;
    txnid = i.mi_recent_txnid;
    unsigned mode = env_flags();
    const bool utter = utterly(mode);
    mode |= top_flags;
    const bool nosync = (mode & MDBX_SAFE_NOSYNC) || (top_flags & MDBX_TXN_NOSYNC), nometa = (mode & MDBX_NOMETASYNC) || (top_flags & MDBX_TXN_NOMETASYNC);
    const bool claimed = i.mi_unsync_volume == 0;
    TR(c, "published txn %llu, env flags %x, txn flags %x, unsynced %llu", (unsigned long long)txnid, mode, top_flags, (unsigned long long)i.mi_unsync_volume);
    if (!nosync && !nometa) {
      synced();
      c.label("durable-commit");
    } else if (claimed && !utter) {
      synced();
      c.label("claimed-synced");
    } else if (!nosync) {
      if (last_steady && states.size() > 1) lo = std::max(lo, states.size() - 2);
      last_steady = true;
      c.label("nometasync-commit");
    } else {
      last_steady = false;
      c.label("nosync-commit");
      if (threshold && !utter && i.mi_unsync_volume > threshold + 8 * std::max<unsigned>(db.cfg.ps, 4096))
        c.fail("%llu bytes are not synced after a commit, but the threshold is %u", (unsigned long long)i.mi_unsync_volume, threshold);
    }
  }
  void began() override {
    if (utterly(env_flags())) fragile = true; // the last synced state may be damaged from now on
  }
  void reopened() override {
    synced(); // by closing
    txnid = info().mi_recent_txnid;
    if (threshold) db.must(mdbx_env_set_option(db.env, MDBX_opt_sync_bytes, threshold), "mdbx_env_set_option(sync_bytes)");
  }
  bool extra(unsigned op) override {
    if (!db.tx.empty()) {
      if (op == 1 || db.tx.size() > 1) return true;
      before_commit();
      db.commit();
      ++committed;
      published();
    }
    if (op == 0) {
      const unsigned how = c.weighted({6, 2, 2});
      const bool weak = lo + 1 < states.size();
      int rc = how == 0 ? mdbx_env_sync_ex(db.env, true, false) : how == 1 ? mdbx_env_sync(db.env) : mdbx_env_sync_poll(db.env);
      TR(c, "sync (%u) -> %s", how, rcname(rc));
      if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync");
      if (how < 2) {
        synced();
        if (info().mi_unsync_volume) c.fail("%llu bytes are not synced after a forced sync", (unsigned long long)info().mi_unsync_volume);
        c.label(weak ? "forced-sync" : "idle-sync");
      } else if (info().mi_unsync_volume == 0 && !utterly(env_flags()))
        c.label("poll");
    } else {
      const unsigned f = c.one<unsigned>({MDBX_SAFE_NOSYNC, MDBX_NOMETASYNC});
      const bool on = c.flip();
      if (utterly(env_flags())) return true;
      int rc = mdbx_env_set_flags(db.env, (MDBX_env_flags_t)f, on);
      TR(c, "set_flags %x %s -> %s", f, on ? "on" : "off", rcname(rc));
      db.must(rc, "mdbx_env_set_flags");
      c.label("mode-change");
    }
    return true;
  }
  void finish() override {
    Crasher::finish();
    for (auto &i : images)
      if (i.lo < i.hi) c.nontrivial();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
}

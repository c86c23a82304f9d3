#include "hist.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C07",
    "a case is one generated configuration with 1-2 fixed tables, up to 4 dynamic ones, a sequence of data operations and transaction "
    "boundaries: nested begin up to depth 6 (also read-only), commit, abort, checkpoint at any depth, rollback, break, commit-to-read, amend, commit or abort of "
    "a parent with its nested transactions still open, reopening; the whole contents are compared with the model after each boundary; "
    "non-trivial: at least one nested transaction or checkpoint that modified data and was finished by each of commit and abort/rollback",
    70000, 900000};
void vf::run_case(Ctx &c) {
  hist::H h(c);
  h.run();
  if (h.committed && h.undone) c.nontrivial();
}

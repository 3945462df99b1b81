// Histories: a generated world, then edits, damage and builds.
#pragma once
#include "rt.h"
#include "spec.h"
#include <string>
#include <vector>

namespace ops {
using spec::World;
using std::string;
using std::vector;

enum Kind { O_BUILD = 0, O_EDIT, O_TOUCH, O_REVERT, O_BREAK, O_UNBREAK, O_SPEC, O_SNAP, O_RESTORE, O_DAMAGE, O_CLOCK, O_BAD, O_SCEN, O_DELBUILD, O_N };
extern const char *const kOpName[O_N];
enum SpecOp {
  M_ADDSRC = 0, M_DELSRC, M_ADDINC, M_DELINC, M_ADDFLAG, M_DELFLAG, M_CHGFLAG, M_SWAPFLAG, M_SWAPINC, M_TOGGLEINC, M_SHADOW, M_ADDPCH, M_DELPCH, M_CLEARPCH,
  M_LIBDIR, M_EXT, M_SWAPEXT, M_LIB, M_SWAPLIB, M_DEP, M_GENADDID, M_GENDELID, M_GENADDIN, M_GENDELIN, M_GENADDOUT, M_GENDELOUT, M_GENDATA, M_GENBLOB, M_GENCMD, M_GENNCMD, M_GENPAT,
  M_REGORDER, M_STYLE, M_TCFLAG, M_TESTRC, M_CDEP, M_LDEP, M_ADDTGT, M_DELTGT, M_BIN, M_TESTOUT, M_GENSWAPOUT, M_TCSTATE, M_SPELL, M_DUPFLAG, M_ROTFLAG, M_SWAPPCH, M_DUPEXT, M_MOVEFLAG, M_SYNC, M_TYPE, M_N
};
extern const char *const kSpecOpName[M_N];

struct MidEd { uint64_t event; string path; };
struct Op {
  int k = O_BUILD;
  uint64_t a = 0, b = 0, c = 0;
  sim::Plan plan;              // builds
  vector<MidEd> med;
  bool diff = false;           // compare against a one-worker reference run first
};
struct History {
  uint64_t wseed = 1;
  int size = 1;
  unsigned feat = spec::W_ALL;
  vector<Op> ops;
};
struct Files {                  // edit-time bookkeeping
  std::map<string, vector<spec::UFile>> old;
  vector<World> snaps;
  std::set<string> racy;        // edited while a build ran: their old times are never put back
  uint64_t clock = 0;
  uint64_t *uniq = nullptr;
  uint64_t fresh() { return (clock / 1000000) * 1000000 + (++*uniq % 1000000); }
};
// edits the world; returns false when there was nothing to do
bool apply(World &w, const Op &op, Files &f);
string to_json(const History &h, const string &property, const string &kind, const string &message, uint64_t seed, const string &extra);
bool from_json(const string &text, History &h, string &property, string &kind);
string describe(const Op &op);
}  // namespace ops

// The live-stroke world: generator (device, predictor, frame clock, renderer, owner, faults),
// reference model and op interpreter.
#ifndef DST_SESSION_H_
#define DST_SESSION_H_
#include <memory>
#include <optional>
#include <vector>

#include "world.h"

namespace dst {

struct SessionProfile {
  int sessions_min = 1, sessions_max = 3;
  int n_min = 3, n_max = 28;
  double p_invalid = 0.10;   // faulty delivery before a correct one
  double p_badclock = 0.05;
  double p_pred = 0.6;       // session uses a predictor
  double p_move = 0;
  double p_snap = 0;
  double p_reset = 0.25;
  double p_abandon = 0.15;   // session abandoned without finishing
  double p_startself = 0;
  double p_tail = 0.7;       // keep updating after finish until quiet
  double p_probe_empty = 0.08;  // empty delivery / update with nothing queued
  bool calls_outside = true; // calls before start / after finish
  bool gentle = false;          // paths that keep going roughly one way
  bool fit_all = false;       // every path may meet every brush: bound the work for all of them
  BrushLimits brush;
};
Plan GenSession(uint64_t seed, const char* property, const SessionProfile& prof);

// Sequential reference model of a live stroke, written from the header documentation.
struct Model {
  std::optional<int> brush;
  bool finished = true;
  float clock = 0;
  std::vector<In> real, qreal, pred, qpred;
  int updates_since_reset = 0;
  static void Split(const Op& op, std::vector<In>* r, std::vector<In>* p);
  // Is the call one the documentation says is accepted?
  bool Legal(const Op& op) const;
  void Apply(const Op& op);  // effect of a legal op
  std::vector<In> Shown() const {
    std::vector<In> v = real;
    v.insert(v.end(), pred.begin(), pred.end());
    return v;
  }
};

enum Outcome { kVoid, kOk, kRejected, kSkipped };
const char* OutcomeName(Outcome o);

// Holds one live stroke; applies plan ops to it through the public API only.
class Live {
 public:
  Live() : s_(std::make_unique<ink::InProgressStroke>()) {}
  ink::InProgressStroke& get() { return *s_; }
  const ink::InProgressStroke& get() const { return *s_; }
  Outcome Apply(const Op& op, const std::vector<ink::Brush>& brushes);
  void Replace() { s_ = std::make_unique<ink::InProgressStroke>(); }
  std::unique_ptr<ink::InProgressStroke> s_;
  bool keep_handed_ = false;  // keep the batches of the last delivery: they stay the caller's
  std::vector<std::shared_ptr<ink::StrokeInputBatch>> handed_;
  std::vector<std::unique_ptr<ink::InProgressStroke>> graveyard_;  // moved-from objects kept around
};

// Everything that is not a "brush" op, plus the brushes.
struct Script {
  std::vector<ink::Brush> brushes;
  std::vector<const Op*> ops;
  explicit Script(const Plan& plan);
  bool Usable(const Op& op) const;  // false for ops whose batches cannot even be constructed
};
uint64_t AbstractState(const ink::InProgressStroke& s, const Op& op, Outcome out);
void CheckInputsAgainstModel(const ink::InProgressStroke& s, const Model& m);
void CheckWellFormed(const ink::InProgressStroke& s);
void CheckStrokeWellFormed(const ink::Stroke& st, const ink::InProgressStroke* from, int retain);

}  // namespace dst
#endif

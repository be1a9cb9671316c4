// A loss function that remembers what the trainer passes through it.
#ifndef SIM_RECORDER_H_
#define SIM_RECORDER_H_
#include "sim.h"
#include <memory>
#include "src/data_store/column.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"

namespace sim {
// Stands between the trainer and the loss function (an interface of the library) and remembers what passes.
struct Round {
  std::vector<double> f;
  double c;
  std::vector<double> g, h;
  std::vector<char> used;      // rows whose weight was asked for while the tree was fitted
};
struct Recorder : gbdt::LossFunc {
  std::unique_ptr<gbdt::LossFunc> in;
  std::vector<Round> rounds;
  bool fitting = false;
  Status Init(int n, FloatVector w, FloatVector y, const gbdt::StringColumn* g) override { return in->Init(n, w, y, g); }
  void ComputeFunctionalGradientsAndHessians(const std::vector<double>& f, double* c, std::vector<gbdt::GradientData>* g, std::string* progress) override {
    fitting = false;
    in->ComputeFunctionalGradientsAndHessians(f, c, g, progress);
    Oracle o;
    fitting = true;
    Round r;
    r.f = f;
    r.c = *c;
    for (auto& x : *g) { r.g.push_back(x.g); r.h.push_back(x.h); }
    r.used.assign(f.size(), 0);
    rounds.push_back(r);
  }
};
}  // namespace sim
#endif

// Workloads shared by the scenarios: tables, configurations, stores, forests, reference models.
#ifndef SIM_WORK_H_
#define SIM_WORK_H_
#include "sim.h"
#include <memory>
#include <unordered_set>
#include "src/base/base.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"

namespace sim {

enum ColType { CT_STRING = 0, CT_BUCKET = 1, CT_RAW = 2 };
struct Col {
  std::string name;
  int type;
  std::vector<std::string> s;      // strings
  std::vector<float> f;            // numbers, NaN missing
  std::vector<std::string> tok;    // as written in files (all types)
};
struct Table {
  int rows = 0;
  std::vector<Col> cols;
  const Col* find(const std::string& n) const;
  std::vector<std::string> names(int type) const;
};

// Knobs of a training workload. Fields of flags:
enum {
  GT_SAFE = 1,        // no exact ties and boundary cases (for comparisons up to rounding)
  GT_POINTWISE = 2,   // only pointwise losses
  GT_PAIRWISE = 4,
  GT_NOSAMPLE = 8,    // no row, feature or pair sampling
  GT_SMALL = 16,
  GT_NOBASE = 32,
};
void gen_train(Rng& r, Knobs& k, int flags);

// Everything about one training workload, derived from the knobs.
struct Train {
  Table t;
  gbdt::Config config;
  std::vector<float> w, y;
  std::string loss;
  int threads, seed;
  std::vector<std::string> features;
  int source;                 // 0 memory, 1 TSV, 2 flat files
  std::vector<std::string> tsvs;
};
// Pure harness code: may be called in the controlling process as well.
void make_table(const Run& run, Train* t);
void make_config(const Run& run, Train* t);
Train make_train(const Run& run);
// Puts the files of a workload on the simulated disk.
void put_files(const Train& t, int blocks, Rng& r, int style);
void put_flat(const std::string& dir, const Col& c);
std::string flat_text(const Col& c);

const char* loss_name(int i);
bool is_pairwise(int i);

// In a simulated process.
std::unique_ptr<gbdt::DataStore> make_store(const Train& t, std::string* error);
std::string train_forest(const Train& t, gbdt::DataStore* ds, const gbdt::Forest* base, gbdt::Forest* out);
std::string forest_bytes(const gbdt::Forest& f);      // without meta information
std::string store_dump(gbdt::DataStore* ds, const Table& t);

// The workload of this run with other data: other rows and values, the same columns, held in memory.
Train other_workload(const Run& run, int which);
// What the process did before: trains and scores other workloads and lets go of everything, so that anything the library
// remembers from earlier calls (by name, address or size) meets other data.
void gen_history(Rng& r, Knobs& k);
void history(const Run& run);

// The canonical schedule: no faults, no preemption.
void canonical(Run& run, RtConfig* c);
// Trains in this process and hands the forest or the error to the controller ("ok ..." or "error ...").
int train_raw_body(const Train& t, const gbdt::Forest* base);
// For the controller, by forking: forest_diff of two such results; and whether rounding decides the forest.
std::string compare_in_child(Run& run, const std::string& a, const std::string& b, double tie, double tol, double min_gain);
bool ill_conditioned(Run& run, Train t, const std::string& ref, double tie, double tol,
                     const std::function<int(const Train&)>& body = nullptr);

// Reference model of scoring.
double walk(const gbdt::TreeNode& n, const Table& t, int row);
double walk(const gbdt::Forest& f, const Table& t, int row, int ntrees = -1);
void random_tree(Rng& r, const Table& t, int leaves, gbdt::TreeNode* n);
gbdt::Forest random_forest(Rng& r, const Table& t, int trees, int leaves);

// Compares a score file on the simulated disk with the expected scores. Empty: complete and equal to the printed precision.
std::string check_scores(const std::string& path, const std::vector<double>& want);

std::string tok_float(float f);
bool same_float(float a, float b);   // bit equal, or both NaN

// Compares forests that may differ by rounding and ties. Empty: same.
std::string forest_diff(const gbdt::Forest& a, const gbdt::Forest& b, double tie, double tol, double min_gain, bool cat_ties, bool* tied);

}  // namespace sim
#endif

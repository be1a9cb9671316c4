// C05 lazy columns, C06 TSV blocks, C07 failing reads, C08 row counts.
#include "work.h"
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <list>
#include <map>
#include <thread>
#include <gflags/gflags.h>
#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

u64 fired_io() {
  RtStats s;
  rt_stats(&s);
  return s.io_open_fail + s.io_eio;
}

// What is at a path, to be put back later (in a simulated process: within Oracle).
struct Snap { std::string path; int kind; std::string data; };
Snap snap(const std::string& p) {
  SFile* f = disk_find(p.c_str());
  if (!f || !f->used) return {p, 0, ""};
  if (f->is_dir) return {p, 2, ""};
  return {p, 1, std::string(disk_data(f), f->size)};
}
void restore(const std::vector<Snap>& v) {
  for (auto& s : v) {
    if (disk_exists(s.path.c_str())) disk_remove(s.path.c_str());
    if (s.kind == 1) disk_put(s.path.c_str(), s.data.data(), s.data.size());
    if (s.kind == 2) disk_mkdir(s.path.c_str());
  }
}

// Compares a loaded column with what its file says. Empty: equal. exact: every value has a bucket of its own.
std::string compare(const gbdt::Column* col, const Col& c, bool exact) {
  int want = c.type == CT_STRING ? (int)gbdt::Column::kStringColumn : c.type == CT_RAW ? (int)gbdt::Column::kRawFloatColumn : (int)gbdt::Column::kBucketizedFloatColumn;
  size_t n = c.type == CT_STRING ? c.s.size() : c.f.size();
  if ((int)col->type() != want) return sfmt("column %s has type %d instead of %d", c.name.c_str(), (int)col->type(), want);
  if (col->name() != c.name) return "column " + c.name + " is called " + col->name();
  if (col->size() != n) return sfmt("column %s has %u rows instead of %zu", c.name.c_str(), col->size(), n);
  for (size_t i = 0; i < n; ++i) {
    if (c.type == CT_STRING) {
      const std::string& s = static_cast<const gbdt::StringColumn*>(col)->get_row_string((unsigned)i);
      if (s != c.s[i]) return sfmt("row %zu of %s is '%.60s' instead of '%.60s'", i, c.name.c_str(), s.c_str(), c.s[i].c_str());
    } else if (c.type == CT_RAW) {
      float v = (*static_cast<const gbdt::RawFloatColumn*>(col))[(unsigned)i];
      if (!same_float(v, c.f[i])) return sfmt("row %zu of %s is %.9g instead of %.9g", i, c.name.c_str(), v, c.f[i]);
    } else {
      auto* b = static_cast<const gbdt::BucketizedFloatColumn*>(col);
      float lo = b->get_row_min((unsigned)i), hi = b->get_row_max((unsigned)i);
      bool m = b->col().missing((unsigned)i);
      if (m != (bool)std::isnan(c.f[i]))
        return sfmt("row %zu of %s is %smissing, value %.9g", i, c.name.c_str(), m ? "" : "not ", c.f[i]);
      if (!m && !(lo <= c.f[i] && c.f[i] <= hi))
        return sfmt("row %zu of %s: %.9g is outside its bucket [%.9g, %.9g]", i, c.name.c_str(), c.f[i], lo, hi);
      if (!m && exact && hi != c.f[i]) return sfmt("row %zu of %s: %.9g is in the bucket of %.9g", i, c.name.c_str(), c.f[i], hi);
    }
  }
  return "";
}

// ---- tables written with unusual but valid tokens ------------------------------------------------
void float_cell(Rng& r, float v, bool flat, Col* c) {
  static const char* nan[] = {"NAN", "nan", "NaN", "?", "_", "-", "*"};
  if (std::isnan(v)) { c->f.push_back(v); c->tok.push_back(flat && r.chance(0.3) ? "garbage" : nan[r.below(7)]); return; }
  std::string t;
  switch (r.below(8)) {
    case 0: t = sfmt("%e", v); break;
    case 1: t = sfmt("%.17g", (double)v); break;
    case 2: t = sfmt("%d", (int)v); break;
    case 3: t = sfmt("%+.3f", v); break;
    case 4: t = sfmt("%a", (double)v); break;
    case 5: t = sfmt(" %.4g", v); break;
    default: t = sfmt("%.9g", (double)v);
  }
  c->tok.push_back(t);
  c->f.push_back(strtof(t.c_str(), 0));
}

std::string rnd_string(Rng& r, int kind, int distinct, bool flat) {
  switch (kind) {
    case 0: return sfmt("v%d", (int)r.below(distinct));
    case 1: return r.chance(0.1) ? (r.chance(0.5) ? "__missing__" : "") : sfmt("cat %d", (int)r.below(distinct));
    case 2: { std::string s = sfmt("%d-", (int)r.below(distinct)); if (r.chance(0.1)) s += std::string(r.below(9000), 'x'); return s; }
    case 4: { std::string s = sfmt("%d", (int)r.below(distinct)); return std::string(r.below(3), ' ') + s + std::string(r.below(3), flat && r.chance(0.3) ? '\t' : ' '); }
    default: { std::string s = sfmt("\"%d\" \xc3\xa9 , ; #", (int)r.below(distinct)); return s; }
  }
}

Table odd_table(Rng& r, int rows, int ncols, bool flat, int distinct) {
  Table t;
  t.rows = rows;
  for (int i = 0; i < ncols; ++i) {
    Col c;
    c.type = (int)r.below(3);
    c.name = sfmt("%s%d", c.type == CT_STRING ? "s" : c.type == CT_RAW ? "r" : "b", i);
    int kind = (int)r.below(c.type == CT_STRING ? 5 : 4), miss = r.chance(0.5) ? (int)r.below(60) : 0;
    int d = distinct ? distinct : (int)r.range(1, 12);
    for (int j = 0; j < rows; ++j) {
      if (c.type == CT_STRING) {
        c.s.push_back(rnd_string(r, kind, d, flat));
        c.tok.push_back(c.s.back());
        if (flat && j == rows - 1 && r.chance(0.1)) c.s.back() = c.tok.back() = "";
      } else {
        float v = kind == 0 ? (float)(i64)r.below(d) : kind == 1 ? (float)(r.unit() * 100 - 50) : kind == 2 ? (float)((r.unit() - 0.5) * 1e30) : (float)((r.unit() - 0.5) * 1e-30);
        float_cell(r, (int)r.below(100) < miss ? NAN : v, flat, &c);
      }
    }
    t.cols.push_back(c);
  }
  return t;
}

// ---- C05 ----------------------------------------------------------------------------------------
void gen5(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("users", r.range(2, r.chance(0.2) ? 8 : 4)); k.set("min.users", 1);
  k.set("requests", r.range(1, 10)); k.set("min.requests", 1);
  k.set("rows", r.chance(0.1) ? 0 : r.range(1, r.chance(0.1) ? 400 : 30));
  k.set("cols", r.range(1, 5)); k.set("min.cols", 1);
  k.set("bad", r.chance(0.6) ? (i64)r.below(32) : 0);
  k.set("dirs", r.range(1, 3)); k.set("min.dirs", 1);
  k.set("openfail", r.chance(0.25) ? r.range(1, 300) : 0);
  k.set("readfail", r.chance(0.25) ? r.range(1, 300) : 0);
  k.set("readodd", r.chance(0.5) ? r.range(1, 600) : 0);
  k.set("oddkind", (i64)r.below(2));
  k.set("earlier", r.chance(0.3) ? r.range(1, 2) : 0);
  k.set("tick_cap", 20000000);
}

struct Req { std::string name; int how; const gbdt::Column* got; u64 start, end, faults; bool ok; };
struct Known { Col c; bool valid; };   // valid: well formed file

void exec5(Run& run) {
  Rng r(run.seed_of("files"));
  int rows = (int)run.knob("rows"), bad = (int)run.knob("bad"), dirs = (int)run.knob("dirs");
  Table t = odd_table(r, rows, (int)run.knob("cols"), true, 0);
  std::map<std::string, Known> files;
  std::vector<std::string> names, dd;
  for (int i = 0; i < dirs; ++i) { dd.push_back(sfmt("/sim/flat%d", i)); disk_mkdir(dd.back().c_str()); }
  for (auto& c : t.cols) {
    int d = (int)r.below(dirs);
    put_flat(dd[d], c);
    // A file of the same name in a later directory must not matter.
    if (d + 1 < dirs && r.chance(0.3)) disk_put((dd[d + 1] + "/" + c.name).c_str(), "# dtype=strings\nother\n", 22);
    files[c.name] = {c, true};
    names.push_back(c.name);
  }
  if (bad & 1) {       // other numbers of rows
    Table u = odd_table(r, rows + (int)r.range(1, 3), 2, true, 0);
    for (auto& c : u.cols) { c.name += "long"; put_flat(dd[r.below(dirs)], c); files[c.name] = {c, true}; names.push_back(c.name); }
  }
  if (bad & 2) { disk_put((dd[0] + "/unknown").c_str(), "# dtype=ints\n1\n2\n", 17); names.push_back("unknown"); }
  if (bad & 4) { disk_mkdir((dd[0] + "/dir").c_str()); names.push_back("dir"); }
  if (bad & 8) names.push_back("missing");
  if (bad & 16) {
    Col z; z.name = "zero"; z.type = (int)r.below(3);
    put_flat(dd[0], z); files["zero"] = {z, true}; names.push_back("zero");
    disk_put((dd[0] + "/empty").c_str(), "", 0); names.push_back("empty");
  }
  RtConfig c = run.config();
  c.fp[F_OPEN].permille = (u32)run.knob("openfail");
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENFILE, EINTR};
  c.fp[F_OPEN].rnd_action = errs[r.below(5)];
  if (run.knob("readfail")) { c.fp[F_READ].permille = (u32)run.knob("readfail"); c.fp[F_READ].rnd_action = IOA_EIO; }
  else if (run.knob("readodd")) { c.fp[F_READ].permille = (u32)run.knob("readodd"); c.fp[F_READ].rnd_action = run.knob("oddkind") ? IOA_SHORT : IOA_EINTR; }
  int users = (int)run.knob("users"), nreq = (int)run.knob("requests");
  // Before: another store on the same directories, with other files there.
  int earlier = (int)run.knob("earlier");
  Table t0;
  std::vector<Snap> files0;
  if (earlier) {
    Rng r0(run.seed_of("earlier"));
    t0 = odd_table(r0, r0.chance(0.5) ? rows : (int)r0.below(30), (int)t.cols.size(), true, 0);
    for (size_t i = 0; i < t0.cols.size(); ++i) {
      t0.cols[i].name = t.cols[i].name;
      std::string s = flat_text(t0.cols[i]);
      files0.push_back({dd[0] + "/" + t0.cols[i].name, 1, s});
    }
  }
  run.spawn(c, [&] {
    std::unique_ptr<gbdt::FlatfilesDataStore> ds0;
    auto check0 = [&] {
      for (auto& c : t0.cols) {
        const gbdt::Column* p = ds0->GetColumn(c.name);
        Oracle o;
        if (!p) violate("C05 a valid request failed", c.name + " in a store of its own");
        std::string d = compare(p, c, true);
        if (!d.empty()) violate("C05 wrong contents", "in another store: " + d);
      }
    };
    if (earlier) {
      std::vector<Snap> now;
      { Oracle o;
        for (auto& s : files0) now.push_back(snap(s.path));
        restore(files0); }
      ds0.reset(new gbdt::FlatfilesDataStore(dd));
      check0();
      { Oracle o; restore(now); note("other_stores_before"); }
      if (earlier == 1) ds0.reset();
    }
    gbdt::FlatfilesDataStore ds(dd);
    std::vector<std::vector<Req>> hist(users);
    { Oracle o;
      for (int u = 0; u < users; ++u)
        for (int i = 0; i < nreq; ++i)
          hist[u].push_back({names[r.below(names.size())], (int)r.below(4), nullptr, 0, 0, 0, false}); }
    rt_faults_enable(1);
    u64 seq = 0;
    std::vector<std::thread> th;
    for (int u = 0; u < users; ++u)
      th.emplace_back([&, u] {
        for (auto& q : hist[u]) {
          u64 f0;
          { Oracle o; q.start = ++seq; f0 = fired_io(); }
          const gbdt::Column* p = nullptr;
          int how = q.how;
          if (how == 1) p = ds.GetStringColumn(q.name);
          else if (how == 2) p = ds.GetRawFloatColumn(q.name);
          else if (how == 3) p = ds.GetBucketizedFloatColumn(q.name);
          else p = ds.GetColumn(q.name);
          Oracle o;
          q.end = ++seq;
          q.faults = fired_io() - f0;
          q.got = p;
          q.ok = p != nullptr;
          if (!p) continue;
          auto it = files.find(q.name);
          if (it == files.end()) violate("C05 a column that does not exist", q.name);
          std::string d = compare(p, it->second.c, true);
          if (!d.empty()) violate("C05 wrong contents", d);
        }
      });
    for (auto& x : th) x.join();
    rt_faults_enable(0);
    u64 tail0;
    { Oracle o; tail0 = ++seq; }
    // Afterwards, without faults, one by one.
    std::vector<Req> tail;
    for (auto& n : names) {
      const gbdt::Column* p = ds.GetColumn(n);
      Oracle o;
      tail.push_back({n, 0, p, ++seq, ++seq, 0, p != nullptr});
    }
    unsigned ncols = ds.num_cols();
    if (ds0) check0();
    Oracle o;
    std::map<std::string, const gbdt::Column*> first;
    u64 first_ok_start = ~0ull;
    i64 rstar = -1;
    auto each = [&](const std::function<void(Req&)>& fn) {
      for (auto& h : hist) for (auto& q : h) fn(q);
      for (auto& q : tail) fn(q);
    };
    each([&](Req& q) {
      note("requests");
      if (!q.ok) return;
      note("requests_served");
      auto& p = first[q.name];
      if (p && p != q.got) violate("C05 two objects for one column", q.name);
      p = q.got;
      if (rstar >= 0 && rstar != (i64)q.got->size()) violate("C05 columns with different row counts", sfmt("%lld and %u", (long long)rstar, q.got->size()));
      rstar = q.got->size();
      first_ok_start = std::min(first_ok_start, q.start);
    });
    for (auto& e : first) {       // still valid and unchanged
      std::string d = compare(e.second, files[e.first].c, true);
      if (!d.empty()) violate("C05 a handed out column changed", d);
    }
    if (first.size() != ncols) {
      // A typed request of the wrong type loads the column and still returns nothing; the tail fetched it again.
      violate("C05 wrong number of columns", sfmt("%u columns held, %zu handed out", ncols, first.size()));
    }
    each([&](Req& q) {
      if (q.ok) return;
      auto it = files.find(q.name);
      if (it == files.end()) return;                              // no such column
      if (q.faults) { note("requests_failed_by_fault"); return; }
      const Col& col = it->second.c;
      static const int want[] = {-1, CT_STRING, CT_RAW, CT_BUCKET};
      if (q.how && want[q.how] != col.type) return;                // asked for as another type
      i64 n = col.type == CT_STRING ? (i64)col.s.size() : (i64)col.f.size();
      if (rstar < 0) violate("C05 a valid request failed", q.name + " although no column was ever loaded");
      if (n == rstar) violate("C05 a valid request failed", sfmt("%s has %lld rows like the store (request %llu..%llu, the check afterwards starts at %llu)", q.name.c_str(), (long long)n, (unsigned long long)q.start, (unsigned long long)q.end, (unsigned long long)tail0));
      if (q.end < first_ok_start && false) violate("C05 a valid request failed", "");
      note("requests_refused_for_row_count");
    });
    return 0;
  });
}
Register r5({"C05", "lazy-columns", gen5, exec5});

// ---- C06 ----------------------------------------------------------------------------------------
void gen6(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("rows", r.chance(0.1) ? (i64)r.below(2) : r.range(1, r.chance(0.1) ? 400 : 40));
  k.set("cols", r.range(1, 6)); k.set("min.cols", 1);
  k.set("blocks", r.range(1, 6)); k.set("min.blocks", 1);
  k.set("nthreads", r.chance(0.2) ? 1 : r.range(2, 6)); k.set("min.nthreads", 1);
  k.set("style", (i64)r.below(8));
  k.set("distinct", k.get("rows") > 200 ? 300 : 0);
  k.set("readodd", r.chance(0.7) ? r.range(1, 900) : 0);
  k.set("oddkind", (i64)r.below(2));
  k.set("unused", (i64)r.below(3));
  k.set("dup", (i64)r.below(4));
  k.set("earlier", r.chance(0.25) ? r.range(1, 2) : 0);
  k.set("tick_cap", 40000000);
  Rng q(r.next());
  if (q.chance(0.006)) {
    // As many rows as real data has, and more values than buckets.
    k.set("rows", q.chance(0.7) ? q.range(1000, 8000) : q.range(30000, 70000));
    k.set("cols", q.range(1, 2)); k.set("unused", q.below(2)); k.set("earlier", 0);
    k.set("distinct", q.chance(0.5) ? q.range(250, 70000) : 0);
    k.set("readodd", 0);
    k.set("tick_cap", 400000000);
  }
}

struct Load { Table t; gbdt::Config config; std::vector<std::string> tsvs; std::vector<bool> wanted; };

// Puts the blocks on the disk. Unrequested columns are in the files only. cuts: row at which each block starts.
Load put_blocks(const Run& run, Rng& r, std::vector<int>* cuts_out = 0, const std::function<void(int, std::string*)>& mangle = nullptr) {
  Load l;
  int rows = (int)run.knob("rows"), ncols = (int)run.knob("cols"), unused = (int)run.knob("unused"), blocks = (int)run.knob("blocks"), style = (int)run.knob("style");
  l.t = odd_table(r, rows, ncols + unused, false, (int)run.knob("distinct"));
  std::vector<int> order;
  for (int i = 0; i < ncols + unused; ++i) order.push_back(i);
  for (int i = (int)order.size() - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  l.wanted.assign(ncols + unused, true);
  for (int i = 0; i < unused; ++i) l.wanted[order[i]] = false;
  for (int i = (int)order.size() - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  for (size_t i = 0; i < l.t.cols.size(); ++i) {
    if (!l.wanted[i]) continue;
    const Col& c = l.t.cols[i];
    int n = 1 + (run.knob("dup") == 1 && r.chance(0.5));
    for (int j = 0; j < n; ++j) {
      if (c.type == CT_BUCKET) l.config.add_float_feature(c.name);
      else if (c.type == CT_RAW) {
        int w = (int)r.below(3);
        if (w == 0 && l.config.target_column().empty()) l.config.set_target_column(c.name);
        else if (w == 1 && l.config.weight_column().empty()) l.config.set_weight_column(c.name);
        else l.config.add_additional_float_column(c.name);
      } else {
        int w = (int)r.below(3);
        if (w == 0 && l.config.group_column().empty()) l.config.set_group_column(c.name);
        else if (w == 1) l.config.add_categorical_feature(c.name);
        else l.config.add_additional_string_column(c.name);
      }
    }
  }
  const char* nl = style & 1 ? "\r\n" : "\n";
  std::vector<int> cut = {0};
  for (int i = 1; i < blocks; ++i) cut.push_back((int)r.below(rows + 1));
  cut.push_back(rows);
  std::sort(cut.begin(), cut.end());
  for (int b = 0; b < blocks; ++b) {
    std::string s;
    auto line = [&](const std::function<std::string(int)>& cell) {
      std::string x;
      for (size_t i = 0; i < order.size(); ++i) x += (i ? "\t" : "") + cell(order[i]);
      return x;
    };
    if (b == 0) s += line([&](int i) { return l.t.cols[i].name; }) + nl;
    for (int j = cut[b]; j < cut[b + 1]; ++j) {
      std::string x = line([&](int i) { return l.t.cols[i].tok[j]; });
      if (x.empty()) {           // a blank line would be no row: only a single empty string can do that
        l.t.cols[order[0]].s[j] = l.t.cols[order[0]].tok[j] = "x";
        x = "x";
      }
      s += x + nl;
      if ((style & 4) && r.chance(0.2)) s += nl;
    }
    if ((style & 2) && cut[b + 1] > cut[b] && s.size() >= strlen(nl)) {
      while (s.size() >= strlen(nl) && !s.compare(s.size() - strlen(nl), strlen(nl), nl)) s.resize(s.size() - strlen(nl));
    }
    if (mangle) mangle(b, &s);
    std::string p = sfmt("/sim/data/part-%d.tsv", b);
    disk_put(p.c_str(), s.data(), s.size());
    l.tsvs.push_back(p);
  }
  if (cuts_out) *cuts_out = cut;
  return l;
}

std::string check_load(gbdt::DataStore* ds, const Load& l) {
  unsigned n = 0;
  for (size_t i = 0; i < l.t.cols.size(); ++i) {
    if (!l.wanted[i]) continue;
    ++n;
    const gbdt::Column* col = ds->GetColumn(l.t.cols[i].name);
    if (!col) return "column " + l.t.cols[i].name + " is not there";
    std::string d = compare(col, l.t.cols[i], l.t.rows <= 50000);   // 30000 buckets: with twice as many rows some values may share one
    if (!d.empty()) return d;
  }
  if (ds->num_cols() != n) return sfmt("%u columns instead of %u", ds->num_cols(), n);
  if (n && (int)ds->num_rows() != l.t.rows) return sfmt("%u rows instead of %d", ds->num_rows(), l.t.rows);
  return "";
}

// Other blocks under the same names, to be loaded before the ones of the run.
std::vector<Snap> earlier_blocks(const Run& run, Load* l0) {
  Rng r(run.seed_of("earlier"));
  *l0 = put_blocks(run, r);
  std::vector<Snap> v;
  for (auto& p : l0->tsvs) { v.push_back(snap(p)); disk_remove(p.c_str()); }
  return v;
}
void load_earlier(const Load& l0, const std::vector<Snap>& files0, const std::vector<std::string>& tsvs, const char* prop, std::unique_ptr<gbdt::TSVDataStore>* ds0) {
  std::vector<Snap> now;
  { Oracle o;
    for (auto& p : tsvs) now.push_back(snap(p));
    restore(files0); }
  ds0->reset(new gbdt::TSVDataStore(l0.tsvs, l0.config));
  Oracle o;
  if (!(*ds0)->status().ok()) violate(sfmt("%s a valid table does not load", prop), (*ds0)->status().ToString());
  std::string d = check_load(ds0->get(), l0);
  if (!d.empty()) violate(sfmt("%s wrong contents", prop), "of the first table: " + d);
  restore(now);
  note("other_tables_before");
}

void exec6(Run& run) {
  Rng r(run.seed_of("files"));
  disk_mkdir("/sim/data");
  Load l0;
  std::vector<Snap> files0;
  int earlier = (int)run.knob("earlier");
  if (earlier) files0 = earlier_blocks(run, &l0);
  Load l = put_blocks(run, r);
  RtConfig c = run.config();
  if (run.knob("readodd")) { c.fp[F_READ].permille = (u32)run.knob("readodd"); c.fp[F_READ].rnd_action = run.knob("oddkind") ? IOA_SHORT : IOA_EINTR; }
  run.spawn(c, [&] {
    FLAGS_num_threads = (int)run.knob("nthreads");
    std::unique_ptr<gbdt::TSVDataStore> ds0;
    if (earlier) load_earlier(l0, files0, l.tsvs, "C06", &ds0);
    if (earlier == 1) ds0.reset();
    rt_faults_enable(1);
    gbdt::TSVDataStore ds(l.tsvs, l.config);
    Oracle o;
    if (ds0) {
      std::string d = check_load(ds0.get(), l0);
      if (!d.empty()) violate("C06 wrong contents", "of the table loaded before: " + d);
    }
    if (!ds.status().ok()) violate("C06 a valid table does not load", ds.status().ToString());
    std::string d = check_load(&ds, l);
    if (!d.empty()) violate("C06 wrong contents", d);
    note("tables_loaded");
    note("rows_loaded", l.t.rows);
    return 0;
  });
}
Register r6({"C06", "tsv-blocks", gen6, exec6});

// Columns fed block by block, with few buckets, so that buckets are built before the last block arrives.
void gen6b(Rng& r, Knobs& k, int tier) {
  gen_sched_seq(r, k);
  k.set("kind", (i64)r.below(3)); k.set("min.kind", k.get("kind"));
  bool wide = r.chance(0.04);
  k.set("rows", wide ? r.range(85000, 110000) : r.range(0, 3000));
  k.set("blocks", r.range(1, 8)); k.set("min.blocks", 1);
  k.set("buckets", r.range(2, 12)); k.set("min.buckets", 2);
  k.set("distinct", wide ? 200000 : r.chance(0.5) ? r.range(1, 20) : r.range(200, 300));
  k.set("spread", (i64)r.below(4));
  // Every row another value, just as many of them as fit into 8 or 16 bits.
  bool edge = !wide && r.chance(0.1);
  k.set("unique", edge);
  if (edge) {
    k.set("rows", (r.chance(0.15) ? 65536 : 256) + r.range(-2, 1));
    if (k.get("kind") == CT_RAW) { k.set("kind", CT_BUCKET); k.set("min.kind", CT_BUCKET); }
    k.set("buckets", 70000); k.set("min.buckets", 70000);
    k.set("spread", 0);
  }
  k.set("heap", (i64)r.below(3)); k.set("fill", 256);
  k.set("tick_cap", 200000000);
}
void exec6b(Run& run) {
  Rng r(run.seed_of("cells"));
  int rows = (int)run.knob("rows"), blocks = (int)run.knob("blocks"), kind = (int)run.knob("kind");
  Col c;
  c.name = "x";
  c.type = kind;
  int d = std::max(1, (int)run.knob("distinct"));
  for (int i = 0; i < rows; ++i) {
    if (run.knob("unique")) {
      // In no particular order.
      u64 v = ((u64)i * 7919 + 13) % (u64)rows;
      if (kind == CT_STRING) c.s.push_back(sfmt("v%d", (int)v)); else c.f.push_back((float)v);
      continue;
    }
    if (kind == CT_STRING) { c.s.push_back(sfmt("v%d", (int)r.below(d))); continue; }
    double v = (double)r.below(d);
    // Later blocks reach beyond what the buckets were built from; or one value dominates.
    if (run.knob("spread") == 1) v *= 1 + 3.0 * i / rows;
    if (run.knob("spread") == 2) v -= 3.0 * i;
    if (run.knob("spread") == 3 && r.chance(0.7)) v = 0;
    c.f.push_back(r.chance(0.05) ? NAN : (float)v);
  }
  std::vector<int> cut = {0};
  for (int i = 1; i < blocks; ++i) cut.push_back((int)r.below(rows + 1));
  cut.push_back(rows);
  std::sort(cut.begin(), cut.end());
  RtConfig cfg = run.config();
  run.spawn(cfg, [&] {
    std::unique_ptr<gbdt::Column> col;
    gbdt::StringColumn* s = 0; gbdt::RawFloatColumn* f = 0; gbdt::BucketizedFloatColumn* b = 0;
    if (kind == CT_STRING) col.reset(s = new gbdt::StringColumn("x"));
    else if (kind == CT_RAW) col.reset(f = new gbdt::RawFloatColumn("x"));
    else col.reset(b = new gbdt::BucketizedFloatColumn("x", (int)run.knob("buckets")));
    for (int i = 0; i < blocks; ++i) {
      if (s) { std::vector<std::string> v(c.s.begin() + cut[i], c.s.begin() + cut[i + 1]); s->Add(&v); }
      else { std::vector<float> v(c.f.begin() + cut[i], c.f.begin() + cut[i + 1]); if (f) f->Add(&v); else b->Add(&v); }
    }
    if (s) s->Finalize(); else if (f) f->Finalize(); else b->Finalize();
    Oracle o;
    if (!col->status().ok()) violate("C06 a column does not load", col->status().ToString());
    std::string dd = compare(col.get(), c, false);
    if (!dd.empty()) violate("C06 wrong contents", dd);
    note("columns_fed");
    if (b && rows > 100 * (int)run.knob("buckets")) note("buckets_built_early");
    if (run.knob("unique")) note("columns_at_the_edge_of_8_or_16_bits");
    if (s && s->max_int() > 65536) note("columns_of_32_bits");
    else if (s && s->max_int() > 256) note("columns_of_16_bits");
    return 0;
  });
}
Register r6b({"C06", "column-blocks", gen6b, exec6b});

// ---- C07 ----------------------------------------------------------------------------------------
void gen7(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("rows", r.range(1, r.chance(0.1) ? 300 : 30)); k.set("min.rows", 1);
  k.set("cols", r.range(1, 5)); k.set("min.cols", 1);
  k.set("blocks", r.range(1, 6)); k.set("min.blocks", 1);
  k.set("nthreads", r.chance(0.2) ? 1 : r.range(2, 6)); k.set("min.nthreads", 1);
  k.set("style", (i64)r.below(8));
  k.set("unused", (i64)r.below(2));
  k.set("distinct", 0);
  k.set("source", (i64)r.below(2)); k.set("min.source", k.get("source"));
  // 0 none, 1 open fails, 2 read fails, 3 file missing, 4 directory instead, 5 short row, 6 no number, 7 missing header
  k.set("fault", r.range(1, 7)); k.set("min.fault", k.get("fault"));
  k.set("at", r.range(0, 12)); k.set("min.at", 0);
  k.set("random", r.chance(0.3) ? r.range(5, 400) : 0);
  k.set("errno", (i64)r.below(6));
  k.set("readodd", (i64)r.below(2));
  k.set("earlier", r.chance(0.25) ? r.range(1, 2) : 0);
  k.set("tick_cap", 20000000);
}

// Whether a cell can be read as a number.
bool number_or_missing(const std::string& s) {
  static const char* nan[] = {"NAN", "nan", "NaN", "?", "_", "-", "*"};
  for (auto x : nan) if (s == x) return true;
  char* e;
  strtof(s.c_str(), &e);
  return !s.empty() && *e == 0;
}

void exec7(Run& run) {
  Rng r(run.seed_of("files"));
  disk_mkdir("/sim/data");
  disk_mkdir("/sim/flat");
  Load l0;
  std::vector<Snap> files0;
  int earlier = run.knob("source") == 1 ? 0 : (int)run.knob("earlier");
  if (earlier) files0 = earlier_blocks(run, &l0);
  std::string garbage;
  size_t spoilt = 0;
  int fault = (int)run.knob("fault");
  int blocks = (int)run.knob("blocks");
  bool flat = run.knob("source") == 1;
  bool malformed = false;
  Rng q(run.seed_of("where"));
  int victim = (int)q.below(blocks);
  Load l = put_blocks(run, r, 0, [&](int b, std::string* s) {
    if (flat || b != victim || (fault != 5 && fault != 6)) return;
    // Spoil one row of this block.
    size_t from = 0;
    if (b == 0) { from = s->find('\n'); if (from == std::string::npos) return; ++from; }
    std::vector<size_t> starts;
    for (size_t p = from; p < s->size();) {
      size_t e = s->find('\n', p);
      if (e == std::string::npos) e = s->size();
      if (e > p && !(e == p + 1 && (*s)[p] == '\r')) starts.push_back(p);
      p = e + 1;
    }
    if (starts.empty()) return;
    size_t p = starts[q.below(starts.size())], e = s->find('\n', p);
    if (e == std::string::npos) e = s->size();
    std::string row = s->substr(p, e - p), crlf;
    if (!row.empty() && row.back() == '\r') { row.resize(row.size() - 1); crlf = "\r"; }
    std::vector<std::string> cells;
    for (size_t x = 0;;) {
      size_t tab = row.find('\t', x);
      cells.push_back(row.substr(x, tab == std::string::npos ? tab : tab - x));
      if (tab == std::string::npos) break;
      x = tab + 1;
    }
    if (fault == 5) {          // cells missing at the end
      if (cells.size() < 2) return;
      spoilt = q.chance(0.5) ? cells.size() - 1 : 1 + q.below(cells.size() - 1);
      cells.resize(spoilt);
    } else {
      static const char* bad[] = {"12x", "", " ", "1 2", "--1", "1e", "1.2.3", "abc", "nan0", "0 ", "?0", "1,5", "0x", "infx", "NA", "none", "+", "1_000", "- 1", "\xc2\xa0" "1"};
      spoilt = q.below(cells.size());
      garbage = bad[q.below(sizeof bad / sizeof *bad)];
      cells[spoilt] = garbage;
    }
    std::string repl;
    for (size_t x = 0; x < cells.size(); ++x) repl += (x ? "\t" : "") + cells[x];
    if (repl.empty()) return;
    *s = s->substr(0, p) + repl + crlf + s->substr(e);
    // Whether that spoils a requested column is for the reader to say: remember the text only.
    malformed = true;
  });
  if (flat) {
    for (auto& c : l.t.cols) {
      // A final empty line is no row.
      if (c.type == CT_STRING && !c.s.empty() && c.s.back().empty()) c.s.back() = c.tok.back() = "z";
      for (size_t i = 0; i < c.tok.size(); ++i) if (c.type == CT_STRING && c.tok[i][0] == '#') c.s[i] = c.tok[i] = "h";
      put_flat("/sim/flat", c);
    }
  }
  // Which column gets spoiled: the one at the changed position, if it is requested (and numeric, for fault 6).
  std::string victim_path = flat ? "/sim/flat/" + l.t.cols[q.below(l.t.cols.size())].name : l.tsvs[victim];
  bool must_fail = false;
  if (malformed) {
    // Recompute from the header, independently of the reader under test.
    std::string h(disk_data(disk_find(l.tsvs[0].c_str())));
    h.resize(std::min(h.size(), (size_t)disk_find(l.tsvs[0].c_str())->size));
    h = h.substr(0, h.find_first_of("\r\n"));
    size_t at = 0;
    for (size_t x = 0;; ++at) {
      size_t tab = h.find('\t', x);
      std::string nm = h.substr(x, tab == std::string::npos ? tab : tab - x);
      for (size_t i = 0; i < l.t.cols.size(); ++i)
        if (l.t.cols[i].name == nm && l.wanted[i] && (fault == 5 ? at >= spoilt : at == spoilt && l.t.cols[i].type != CT_STRING && !number_or_missing(garbage))) must_fail = true;
      if (tab == std::string::npos) break;
      x = tab + 1;
    }
    if (!must_fail) {
      // The spoiled cell is not requested, or a string: then the strings change. Nothing to check but that it ends.
      note("spoiled_elsewhere");
    }
  }
  bool changed = malformed && !must_fail;
  if (fault == 3) { disk_remove(victim_path.c_str()); must_fail = true; }
  if (fault == 4) { disk_remove(victim_path.c_str()); disk_mkdir(victim_path.c_str()); must_fail = true; }
  if (fault == 7) {
    if (flat) disk_put(victim_path.c_str(), "1\n2\n", 4); else { disk_put(l.tsvs[0].c_str(), "", 0); }
    must_fail = true;
  }
  if (flat) {
    must_fail = must_fail && [&] { for (size_t i = 0; i < l.t.cols.size(); ++i) if (l.wanted[i] && "/sim/flat/" + l.t.cols[i].name == victim_path) return true; return false; }();
  } else if (fault == 7) {
    bool any = false;
    for (bool w : l.wanted) any = any || w;
    must_fail = any;
  }
  RtConfig c = run.config();
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENOENT, ENFILE, EINTR};
  if (fault == 1) {
    c.fp[F_OPEN].n_at = 1; c.fp[F_OPEN].at[0] = (u64)run.knob("at"); c.fp[F_OPEN].action[0] = errs[run.knob("errno") % 6];
    c.fp[F_OPEN].permille = (u32)run.knob("random"); c.fp[F_OPEN].rnd_action = errs[run.knob("errno") % 6];
  }
  if (fault == 2) {
    c.fp[F_READ].n_at = 1; c.fp[F_READ].at[0] = (u64)run.knob("at"); c.fp[F_READ].action[0] = IOA_EIO;
    c.fp[F_READ].permille = (u32)run.knob("random"); c.fp[F_READ].rnd_action = IOA_EIO;
  } else if (run.knob("readodd")) {
    c.fp[F_READ].permille = 200; c.fp[F_READ].rnd_action = IOA_SHORT;
  }
  run.spawn(c, [&] {
    FLAGS_num_threads = (int)run.knob("nthreads");
    std::unordered_set<std::string> feats;
    for (size_t i = 0; i < l.t.cols.size(); ++i) if (l.wanted[i]) feats.insert(l.t.cols[i].name);
    std::unique_ptr<gbdt::TSVDataStore> ds0;
    if (earlier) load_earlier(l0, files0, l.tsvs, "C07", &ds0);
    if (earlier == 1) ds0.reset();
    rt_faults_enable(1);
    std::unique_ptr<gbdt::DataStore> ds;
    Status st;
    if (flat) {
      ds.reset(new gbdt::FlatfilesDataStore(std::string("/sim/flat")));
      std::vector<const gbdt::Column*> v;
      st = gbdt::LoadFeatures(feats, ds.get(), &v);
    } else {
      ds.reset(new gbdt::TSVDataStore(l.tsvs, l.config));
      st = ds->status();
    }
    u64 fired;
    bool live;
    { Oracle o; fired = fired_io(); live = rt_live_threads() > 1; }
    rt_faults_enable(0);
    if (st.ok()) {
      Oracle o;
      if (must_fail) violate("C07 a bad file is reported as success", sfmt("fault %d", fault));
      std::string d = changed ? "" : check_load(ds.get(), l);
      if (!d.empty()) violate("C07 success with wrong contents", d);
      note("loads_succeeded");
      if (fired) note("faults_without_effect");
    } else {
      Oracle o;
      if (!must_fail && !fired && !malformed) violate("C07 failure without a reason", st.ToString());
      note("loads_failed");
    }
    if (live) { Oracle o; violate("C07 loader threads left behind", ""); }
    // Once the faults have stopped, loading works.
    if (!must_fail && !malformed) {
      std::unique_ptr<gbdt::DataStore> again;
      gbdt::DataStore* p = ds.get();
      if (flat) { std::vector<const gbdt::Column*> v; st = gbdt::LoadFeatures(feats, p, &v); }
      else { again.reset(new gbdt::TSVDataStore(l.tsvs, l.config)); p = again.get(); st = p->status(); }
      Oracle o;
      if (!st.ok()) violate("C07 loading fails after the faults have stopped", st.ToString());
      std::string d = check_load(p, l);
      if (!d.empty()) violate("C07 wrong contents after the faults have stopped", d);
      note("reloads");
    }
    return 0;
  });
}
Register r7({"C07", "failing-reads", gen7, exec7});

// ---- C08 ----------------------------------------------------------------------------------------
void gen8(Rng& r, Knobs& k, int tier) {
  gen_sched_seq(r, k);
  k.set("ops", r.range(1, 30)); k.set("min.ops", 1);
  k.set("sizes", r.range(1, 4)); k.set("min.sizes", 1);
  k.set("zero", (i64)r.below(2));
  k.set("names", r.range(1, 6)); k.set("min.names", 1);
  k.set("heap", (i64)r.below(3));
  k.set("files", (i64)r.below(6));
}

std::unique_ptr<gbdt::Column> mkcol(const std::string& name, int type, int n, Rng& r) {
  if (type == CT_STRING) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(sfmt("v%d", (int)r.below(3))); return gbdt::Column::CreateStringColumn(name, v); }
  std::vector<float> f;
  for (int i = 0; i < n; ++i) f.push_back(r.chance(0.2) ? NAN : (float)r.below(9));
  if (type == CT_RAW) return gbdt::Column::CreateRawFloatColumn(name, std::vector<float>(f));
  return gbdt::Column::CreateBucketizedFloatColumn(name, f);
}

void exec8(Run& run) {
  RtConfig c = run.config();
  // Files of several lengths, for the columns a store loads by itself.
  std::map<std::string, int> files;
  { Rng q(run.seed_of("files"));
    disk_mkdir("/sim/flat");
    for (int i = 0; i < run.knob("files"); ++i) {
      Col f;
      f.name = sfmt("c%d", (int)q.below(run.knob("names")));
      if (files.count(f.name)) continue;
      f.type = (int)q.below(3);
      int n = files[f.name] = (int)q.below(run.knob("sizes")) + (run.knob("zero") ? 0 : 1);
      for (int j = 0; j < n; ++j) {
        if (f.type == CT_STRING) { f.s.push_back(sfmt("v%d", (int)q.below(3))); f.tok.push_back(f.s.back()); }
        else { f.f.push_back((float)q.below(5)); f.tok.push_back(tok_float(f.f.back())); }
      }
      put_flat("/sim/flat", f);
    } }
  run.spawn(c, [&] {
    Rng r(run.seed_of("ops"));
    std::unique_ptr<gbdt::DataStore> ds;
    bool flat = r.chance(files.empty() ? 0.5 : 0.8);
    if (flat) ds.reset(new gbdt::FlatfilesDataStore(std::string("/sim/flat"))); else ds.reset(new gbdt::DataStore);
    std::map<std::string, int> model;
    int nops = (int)run.knob("ops");
    for (int i = 0; i < nops; ++i) {
      std::string name = sfmt("c%d", (int)r.below(run.knob("names")));
      if (!files.empty() && r.chance(0.4)) {
        const gbdt::Column* p = ds->GetColumn(name);
        Oracle o;
        bool want = model.count(name) != 0;
        if (!want && flat && files.count(name) && (model.empty() || model.begin()->second == files[name])) { want = true; model[name] = files[name]; }
        if (!p && want) violate("C08 a column that fits does not load", name);
        if (p && !want) violate("C08 a column that does not fit is loaded", sfmt("%s: %d rows", name.c_str(), (int)p->size()));
        note(p ? "columns_found" : "columns_not_found");
      } else if (r.chance(0.6)) {
        int n = (int)r.below(run.knob("sizes")) + (run.knob("zero") ? 0 : 1);
        auto col = mkcol(name, (int)r.below(3), n, r);
        Status st = ds->Add(std::move(col));
        Oracle o;
        bool want = !model.count(name) && (model.empty() || model.begin()->second == n);
        if (st.ok() && !want) violate("C08 a column that does not fit is accepted", sfmt("%d rows added to a store of %zu columns with %d rows", n, model.size(), model.empty() ? -1 : model.begin()->second));
        if (!st.ok() && want) violate("C08 a column that fits is refused", st.ToString());
        if (want) model[name] = n;
        note(st.ok() ? "columns_added" : "columns_refused");
      } else {
        ds->RemoveColumnIfExists(name);
        Oracle o;
        model.erase(name);
      }
      Oracle o;
      if (ds->num_cols() != model.size()) violate("C08 wrong number of columns", sfmt("%u instead of %zu", ds->num_cols(), model.size()));
      if ((int)ds->num_rows() != (model.empty() ? 0 : model.begin()->second)) violate("C08 wrong number of rows", "");
      for (auto& m : model) {
        const gbdt::Column* p = ds->GetColumn(m.first);
        if (!p || (int)p->size() != m.second) violate("C08 wrong column", m.first);
      }
    }
    return 0;
  });
}
Register r8({"C08", "add-and-remove", gen8, exec8});

void gen8b(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("cols", r.range(2, 6)); k.set("min.cols", 1);
  k.set("rows", (i64)r.below(12));
  k.set("odd", r.chance(0.3) ? 0 : r.range(1, 2));    // columns with another number of rows
  k.set("delta", r.range(-12, 3)); k.set("min.delta", -12);
  k.set("nthreads", r.range(1, 6)); k.set("min.nthreads", 1);
  k.set("how", (i64)r.below(3));
  k.set("preload", r.chance(0.3));
  k.set("tick_cap", 20000000);
}
void exec8b(Run& run) {
  Rng r(run.seed_of("files"));
  disk_mkdir("/sim/flat");
  int ncols = (int)run.knob("cols"), rows = (int)run.knob("rows"), odd = (int)run.knob("odd");
  int other = rows + (int)run.knob("delta");
  if (other < 0) other = 0;
  Table t;
  t.rows = rows;
  std::vector<int> n;
  for (int i = 0; i < ncols; ++i) {
    Col c;
    c.name = sfmt("c%d", i);
    c.type = r.chance(0.5) ? CT_STRING : CT_BUCKET;
    n.push_back(i < odd ? other : rows);
    for (int j = 0; j < n[i]; ++j) {
      bool blank = r.chance(0.15);     // an empty string, a value that is missing
      if (c.type == CT_STRING) { c.s.push_back(blank ? "" : sfmt("v%d", (int)r.below(3))); c.tok.push_back(c.s.back()); }
      else { c.f.push_back(blank ? NAN : (float)r.below(5)); c.tok.push_back(blank ? (r.chance(0.5) ? "" : "NAN") : tok_float(c.f.back())); }
    }
    put_flat("/sim/flat", c);
    t.cols.push_back(c);
  }
  bool agree = true;
  for (int x : n) agree = agree && x == n[0];
  RtConfig c = run.config();
  run.spawn(c, [&] {
    FLAGS_num_threads = (int)run.knob("nthreads");
    gbdt::Forest f;
    int how = (int)run.knob("how");
    std::unordered_set<std::string> feats;
    { Oracle o;
      for (auto& col : t.cols) {
        feats.insert(col.name);
        auto* tr = f.add_tree();
        tr->set_score(0);
        tr->mutable_split()->set_feature(col.name);
        tr->mutable_split()->set_gain(1);
        if (col.type == CT_STRING) tr->mutable_split()->mutable_cat_split()->add_category("v1");
        else tr->mutable_split()->mutable_float_split()->set_threshold(2.5);
        tr->mutable_left_child()->set_score(1);
        tr->mutable_right_child()->set_score(2);
      } }
    rt_faults_enable(1);
    gbdt::FlatfilesDataStore ds(std::string("/sim/flat"));
    if (run.knob("preload")) ds.GetColumn("c0");
    Status st;
    std::vector<std::thread> th;
    std::vector<char> got(ncols, 0);
    if (how == 0) { std::vector<const gbdt::Column*> v; st = gbdt::LoadFeatures(feats, &ds, &v); }
    else if (how == 1) { std::vector<double> s; st = gbdt::EvaluateForest(&ds, f, &s); if (st.ok() && (int)s.size() != n[0]) { Oracle o; violate("C08 wrong number of scores", sfmt("%zu for %d rows", s.size(), n[0])); } }
    else {
      for (int i = 0; i < ncols; ++i) th.emplace_back([&, i] { got[i] = ds.GetColumn(sfmt("c%d", i)) != nullptr; });
      for (auto& x : th) x.join();
    }
    Oracle o;
    bool ok = st.ok();
    if (how == 2) for (int i = 0; i < ncols; ++i) ok = ok && got[i];
    if (ok && !agree) violate("C08 columns with different row counts load together", "");
    if (!ok && agree) violate("C08 columns with equal row counts do not load", how == 2 ? std::string("") : st.ToString());
    note(ok ? "sets_loaded" : "sets_refused");
    // What the store holds now agrees; every column is either held or of another size.
    i64 held = -1;
    unsigned cnt = 0;
    for (auto list : {0, 1}) {
      if (list == 0) for (auto* p : ds.GetStringColumns()) { ++cnt; if (held >= 0 && held != p->size()) violate("C08 unequal row counts in the store", ""); held = p->size(); }
      else for (auto* p : ds.GetBucketizedFloatColumns()) { ++cnt; if (held >= 0 && held != p->size()) violate("C08 unequal row counts in the store", ""); held = p->size(); }
    }
    if (held >= 0 && (i64)ds.num_rows() != held) violate("C08 wrong row count", "");
    unsigned expect = 0;
    for (int x : n) expect += x == held;
    if (cnt != ds.num_cols()) violate("C08 wrong number of columns", "");
    if (cnt > expect) violate("C08 too many columns", "");
    if (how != 1 && cnt != expect && (how == 2 || ok)) violate("C08 a column that fits was refused", sfmt("%u of %u", cnt, expect));
    return 0;
  });
}
Register r8b({"C08", "load-sets", gen8b, exec8b});

}  // namespace

// Executes scenarios of spec/Stats.tla on the real StatAggregator and CSVStatSink, in a scratch directory.
// (private members are opened only to set the epoch and iteration counters, which the trainer sets as a friend)
#include <functional>
#include <vector>
#include <string>
#include <chrono>
#include <climits>
#define private public
#include <cn24/util/StatAggregator.h>
#undef private
#include <cn24.h>
#include "h.h"
#include <unistd.h>
#include <sys/stat.h>
#include <thread>
#include <cstdlib>
using namespace Conv;
static vt::J* calls; static vt::J* secs;
static std::string last;
static std::vector<double> units;         // of the statistics, in order
static long inunits(double v, size_t i) { double x = v * 8 / (i < units.size() ? units[i] : 1), r = std::floor(x + 0.5); return std::fabs(x - r) < 1e-6 && std::fabs(r) < 1e9 ? (long)r : vt::BAD; }
struct Csv : public CSVStatSink { void SetCurrentExperiment(std::string n) { last = n; CSVStatSink::SetCurrentExperiment(n); } };
struct Probe : public StatSink {
  int id; std::vector<StatDescriptor*> d; explicit Probe(int id) : id(id) {}
  void call(const char* k, const std::string& n, const std::string& v, HardcodedStats* h) {
    calls->addraw(vt::J().i("to", id).t("k", k).t("n", n).raw("v", v).i("it", h ? h->iterations : 0).i("ep", h ? h->epoch : 0).b("tr", h ? h->is_training : true).i("w", h ? h->weights : 0).str());
  }
  void Initialize(std::vector<StatDescriptor*>& x) {
    vt::J v(false); for (size_t i = 0; i < x.size(); i++) v.addraw("[" + std::to_string(x[i]->stat_id + 1) + "]");
    call("I", "", v.str(), nullptr);
  }
  void SetCurrentExperiment(std::string n) { call("X", n, "[]", nullptr); }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) {
    vt::J v(false); size_t i = 0; for (auto x : s) { v.addraw(x->is_null ? "[]" : "[" + std::to_string(inunits(x->value, i)) + "]"); i++; }
    call("P", "", v.str(), &h); secs->add(vt::fixed(std::floor(h.seconds_elapsed * 1000), 1));
  }
};
static std::vector<std::string> split(const std::string& line) { std::vector<std::string> f(1); for (char c : line) if (c == ',') f.push_back(""); else f.back() += c; return f; }
static long whole(const std::string& s, double f, bool& ok) { if (s.empty()) { ok = false; return 0; } char* e; double v = strtod(s.c_str(), &e); if (*e) ok = false; return vt::exact(v, f); }
static long value(const std::string& s, size_t i, bool& ok) { char* e; double v = strtod(s.c_str(), &e); if (*e) ok = false; return inunits(v, i); }
static std::string file(const std::string& name) {
  std::string p = "csv/" + name + ".csv"; struct stat st; vt::J h(false), r(false); std::string s = "lines";
  if (stat(p.c_str(), &st)) s = "none"; else if (S_ISDIR(st.st_mode)) s = "dir"; else if (S_ISCHR(st.st_mode)) s = "full";
  else {
    std::ifstream in(p); std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); std::istringstream is(all); std::string line; bool first = true;
    if (all.empty() || all.back() != '\n') s = "cut";
    while (std::getline(is, line)) {
      auto f = split(line);
      if (first) { first = false; for (auto& x : f) h.addt(x); continue; }
      bool ok = f.size() >= 5 && (f[0] == "0" || f[0] == "1"); f.resize(std::max<size_t>(f.size(), 5));
      vt::J v(false); for (size_t i = 4; i < f.size(); i++) v.addraw(f[i].empty() ? "[]" : "[" + std::to_string(value(f[i], i - 4, ok)) + "]");
      char* e; double t = strtod(f[3].c_str(), &e); if (f[3].empty() || *e) ok = false;
      long ep = whole(f[1], 1, ok), it = whole(f[2], 1, ok);
      r.addraw(vt::J().b("ok", ok).b("tr", f[0] == "1").i("ep", ep).i("it", it).raw("v", v.str()).i("s", vt::fixed(std::floor(t * 1000), 1)).b("z", t == 0).str());
    }
  }
  return vt::J().t("s", s).raw("h", h.str()).raw("r", r.str()).str();
}
static std::string trim(std::string s) { while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
// the reports in what was printed: headings and the lines below them
static std::string console(const std::string& all, const std::vector<std::pair<std::string, double>>& scale) {
  std::string text; for (size_t i = 0; i < all.size(); i++) { if (all[i] == '\033') { while (i < all.size() && all[i] != 'm') i++; continue; } text += all[i]; }
  vt::J heads(false), rows(false); bool have = false; long ep = 0; std::istringstream is(text); std::string line;
  auto flush = [&]() { if (have) heads.addraw(vt::J().i("ep", ep).raw("r", rows.str()).str()); rows = vt::J(false); };
  while (std::getline(is, line)) {
    size_t k = line.find("RESULT --- "); if (k == std::string::npos) continue; line = line.substr(k + 11);
    size_t c = line.rfind(": "), h = line.find("epoch "); 
    if (c == std::string::npos && h != std::string::npos) { flush(); have = true; ep = atol(line.c_str() + h + 6); continue; }
    if (c == std::string::npos) { have = true; rows.addraw("{\"d\":\"?\",\"u\":\"\",\"v\":0}"); continue; }
    std::string d = trim(line.substr(0, c)); char* e; std::string rest = line.substr(c + 2); double v = strtod(rest.c_str(), &e), f = 1;
    for (auto& x : scale) if (x.first == d) f = x.second;
    double x = std::floor(v * 8 / f + 0.5); have = true; rows.addraw(vt::J().t("d", d).t("u", trim(e)).i("v", std::fabs(x) < 1e9 ? (long)x : vt::BAD).str());
  }
  flush(); return heads.str();
}
static StatDescriptor* make(const std::string& k) {
  StatDescriptor* d = new StatDescriptor; typedef HardcodedStats H;
  if (k == "sum") { d->description = "Sum of X"; d->nullable = true; d->init_function = [](Stat& s) { s.value = 77; s.is_null = true; }; d->update_function = [](Stat& s, double v) { s.value = (s.is_null ? 0 : s.value) + v; s.is_null = false; }; }
  else if (k == "cnt") { d->description = "Count-2"; d->unit = "1/pixel"; d->init_function = [](Stat& s) { s.value = 0; }; d->update_function = [](Stat& s, double) { s.value += 1; }; }
  else if (k == "last") { d->description = "Last"; d->init_function = [](Stat& s) { s.value = 0; }; d->update_function = [](Stat& s, double v) { s.value = v; }; }
  else if (k == "avg") { d->description = "Average (A/B), "; d->nullable = true; d->init_function = [](Stat& s) { s.value = 0; }; d->update_function = [](Stat& s, double v) { s.value += v; };
    d->output_function = [](H& h, Stat& s) -> Stat { Stat r; r.is_null = h.iterations == 0; r.value = 5; if (!r.is_null) r.value = std::floor(s.value * 8 / h.iterations) / 8; return r; }; }
  else if (k == "epoch") { d->description = ""; d->output_function = [](H& h, Stat&) -> Stat { Stat r; r.value = h.epoch; return r; }; }
  else if (k == "huge") { d->description = "HUGE"; d->unit = "2^40"; d->init_function = [](Stat& s) { s.value = 0; }; d->update_function = [](Stat& s, double v) { s.value = v * 1099511627776.0; }; }
  else if (k == "wide") { d->description = "Wide 2"; d->init_function = [](Stat& s) { s.value = 0; }; d->update_function = [](Stat& s, double v) { s.value = v * 8388616.0; }; }
  else if (k == "tiny") { d->description = "tiny"; d->init_function = [](Stat& s) { s.value = 0; }; d->update_function = [](Stat& s, double v) { s.value += v / 1099511627776.0; }; }
  else if (k == "some") { d->description = "Some"; d->nullable = true; d->init_function = [](Stat& s) { s.value = 0; s.is_null = true; }; d->update_function = [](Stat& s, double v) { s.value = v; s.is_null = false; };
    d->output_function = [](H&, Stat& s) -> Stat { Stat r; r.value = s.is_null ? 300 : s.value; return r; }; }
  else if (k == "const") d->description = "Constant @[`{/ 019 azAZ";
  else exit(3);
  return d;
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  char here0[4096]; if (!getcwd(here0, sizeof here0)) return 3; char tmpl[] = "statsXXXXXX"; std::string base = std::string(here0) + "/" + mkdtemp(tmpl); int no = 0;
  for (auto& words : lines) {
    std::string here = base + "/" + std::to_string(no++); mkdir(here.c_str(), 0700); if (chdir(here.c_str())) return 3;
    StatAggregator* agg = new StatAggregator; System::stat_aggregator = agg; Csv* csv = nullptr; last = ""; units.clear(); bool dir = false;
    auto t0 = std::chrono::steady_clock::now(); size_t p = 0, nsinks = 0; std::vector<StatSink*> all; 
    vt::J c0(false), s0(false);
    std::ostringstream out; std::streambuf* cout0 = std::cout.rdbuf(); static const std::vector<std::pair<std::string, double>> scale = {{"HUGE", 1099511627776.0}, {"Wide 2", 8388616.0}, {"tiny", 1 / 1099511627776.0}};
    auto fresh = [&]() { out.str(""); std::cout.rdbuf(out.rdbuf()); c0 = vt::J(false); s0 = vt::J(false); calls = &c0; secs = &s0; };
    auto done = [&](vt::J e) {
      std::cout.rdbuf(cout0);
      vt::J f; for (const char* n : {"unnamed", "a", "experiment-with-a-rather-long-name_0123456789", "x/y"}) f.raw(n, file(n));
      long wall = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count() + 2;
      vt::emit(e.raw("calls", c0.str()).raw("secs", s0.str()).raw("con", console(out.str(), scale)).raw("files", f.str()).i("wall", wall));
    };
    auto reg = [&](const std::string& k) { fresh(); StatDescriptor* d = make(k); units.push_back(k == "huge" ? 1099511627776.0 : k == "wide" ? 8388616.0 : k == "tiny" ? 1 / 1099511627776.0 : 1); unsigned id = agg->RegisterStat(d); done(vt::ev("Stat").t("k", k).i("id", id).i("id2", d->stat_id)); };
    auto sink = [&](const std::string& k) { fresh(); StatSink* s; if (k == "csv") s = csv = new Csv; else if (k == "console") s = new ConsoleStatSink; else s = new Probe(nsinks + 1); all.push_back(s); nsinks++; unsigned id = agg->RegisterSink(s); done(vt::ev("Sink").t("k", k).i("id", id)); };
    while (p < words.size()) {
      std::string op = words[p++]; std::vector<std::string> a; while (p < words.size() && words[p] != ";") a.push_back(words[p++]); p++;
      auto n = [&](size_t i) { return atol(a.at(i).c_str()); };
      if (op == "Begin") {
        dir = n(1) != 0; if (dir) mkdir("csv", 0700);
        vt::emit(vt::ev("Begin").b("dir", dir)); agg->hardcoded_stats_.is_training = true;
        bool need = n(0) != 0; size_t at = a.size() > 2 ? (a.size() - 2) / 2 : 0;
        for (size_t i = 2; i < a.size(); i++) { if (need && i - 2 == at) { sink("csv"); need = false; } if (a[i] == "probe" || a[i] == "console") sink(a[i]); else reg(a[i]); }
        if (need) sink("csv");
      }
      else if (op == "Init") { fresh(); agg->Initialize(); done(vt::ev("Init")); }
      else if (op == "Start") { fresh(); agg->StartRecording(); done(vt::ev("Start")); }
      else if (op == "Stop") { fresh(); agg->StopRecording(); done(vt::ev("Stop")); }
      else if (op == "Wait") { fresh(); std::this_thread::sleep_for(std::chrono::milliseconds(n(0))); done(vt::ev("Wait").i("n", n(0))); }
      else if (op == "Run") {
        fresh(); agg->StartRecording(); done(vt::ev("Start")); fresh(); std::this_thread::sleep_for(std::chrono::milliseconds(n(0))); done(vt::ev("Wait").i("n", n(0)));
        fresh(); agg->StopRecording(); done(vt::ev("Stop"));
      }
      else if (op == "Update") { fresh(); agg->Update((unsigned)(n(0) - 1), n(1) / 8.0); done(vt::ev("Update").i("i", n(0)).i("v", n(1))); }
      else if (op == "Gen") { fresh(); agg->Generate(); done(vt::ev("Gen")); }
      else if (op == "Snap") { fresh(); agg->Snapshot(); done(vt::ev("Snap")); }
      else if (op == "Reset") { fresh(); agg->Reset(); done(vt::ev("Reset")); }
      else if (op == "Exp") { fresh(); agg->SetCurrentExperiment(a[0]); done(vt::ev("Exp").t("n", a[0])); }
      else if (op == "Stat") reg(a[0]);
      else if (op == "Hc") {
        fresh(); agg->hardcoded_stats_.epoch = n(0); agg->hardcoded_stats_.iterations = n(1); agg->hardcoded_stats_.weights = n(2); NetStatus st; st.SetIsTesting(n(3) == 0);
        done(vt::ev("Hc").i("ep", n(0)).i("it", n(1)).i("w", n(2)).b("tr", n(3) != 0));
      }
      else if (op == "Dir") { fresh(); dir = true; mkdir("csv", 0700); done(vt::ev("Dir")); }
      else if (op == "Occ") {
        // only names whose file is not open at the moment are replaced
        std::string path = "csv/" + a[0] + ".csv"; if (!dir || a[0] == last) continue;
        fresh(); unlink(path.c_str()); rmdir(path.c_str());
        if (a[1] == "dir") mkdir(path.c_str(), 0700); else if (a[1] == "full") { if (symlink("/dev/full", path.c_str())) return 3; }
        done(vt::ev("Occ").t("n", a[0]).t("s", a[1]));
      }
      else return 3;
    }
    for (auto s : all) if (s == csv) delete csv;
    csv = nullptr;
  }
  return 0;
}

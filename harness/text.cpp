// C14, C15, C16, C23: text the user types in, or copies out.
#include "msx.h"
#include <cstring>
#include <string>
namespace msx_ct { constexpr int ct_strcmp(char const* a, char const* b) { return __builtin_strcmp(a, b); } constexpr int ct_strncmp(char const* a, char const* b, size_t n) { return __builtin_strncmp(a, b, n); } } // clang: usable at compile time, as with gcc
using msx_ct::ct_strcmp; using msx_ct::ct_strncmp; namespace std { using msx_ct::ct_strcmp; using msx_ct::ct_strncmp; }
#define strcmp ct_strcmp
#define strncmp ct_strncmp
#include "core/exec/command.hpp"
#include "core/build/id.hpp"
#include "core/utils/system_time_stamp.hpp"
#include "core/sched/thread_count.hpp"
#include "core/db/source_file_origin.hpp"
#include "core/db/rebuild_policy.hpp"
#include <string>
#include <vector>
#include <cstring>
#ifdef MORENAMES
#include "core/source_file_info_loaders/generic/source_file_loader.hpp"
#include "core/db/compilation_log.hpp"
#include "core/db/log_format.hpp"
#endif
#ifdef CMDLINE
#include "core/bin/cmd_line_options.hpp"
#endif
using namespace Maike;
#ifndef LEN
#define LEN 3
#endif
#ifndef WINDOW
#define WINDOW 2
#endif
#ifndef ARGS
#define ARGS 2
#endif
static std::string text(unsigned lo, unsigned hi, char const* nm) {
  unsigned const n = (unsigned)msx_concretize(msx_range(lo, hi, "length")); char b[80]; msx_symbolic(b, n, nm); for(unsigned i = 0; i < n; ++i) msx_assume(b[i] != 0); return std::string(b, n); }
// --- C15
namespace { // The quoting rules of the shell command language
struct Words { std::vector<std::string> w; bool ok = true; };
Words split(std::string const& s) {
  Words r; bool in = false; std::string cur; size_t i = 0;
  while(i < s.size()) {
    char const c = s[i];
    if(c == '\'') { in = true; ++i; while(i < s.size() && s[i] != '\'') cur += s[i++]; if(i == s.size()) { r.ok = false; return r; } ++i; }
    else if(c == '"') { in = true; ++i;
      while(i < s.size() && s[i] != '"') { if(s[i] == '$' || s[i] == '`') { r.ok = false; return r; } if(s[i] == '\\' && i + 1 < s.size() && (s[i + 1] == '"' || s[i + 1] == '\\' || s[i + 1] == '$' || s[i + 1] == '`')) ++i; else if(s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '\n') { i += 2; continue; } cur += s[i++]; }
      if(i == s.size()) { r.ok = false; return r; } ++i; }
    else if(c == '\\') { if(i + 1 == s.size()) { r.ok = false; return r; } if(s[i + 1] != '\n') { in = true; cur += s[i + 1]; } i += 2; }
    else if(c == ' ' || c == '\t') { if(in) { r.w.push_back(cur); cur.clear(); in = false; } ++i; }
    else if(strchr("\n$`;&|<>()*?[]#~={}!%", c)) { r.ok = false; return r; }
    else { in = true; cur += c; ++i; } }
  if(in) r.w.push_back(cur); return r; }
}
extern "C" void harness_quote() {
  std::string exe = text(1, LEN, "exe"); unsigned const n = (unsigned)msx_concretize(msx_range(0, ARGS, "nargs")); std::vector<std::string> args; for(unsigned i = 0; i < n; ++i) args.push_back(text(0, LEN, "arg"));
  Exec::Command cmd{}; cmd.executable = fs::path{exe}; cmd.args = args;
  auto const s = toString(cmd); auto const w = split(s); msx_observe(s.size());
  msx_assert(w.ok, "C15: the printed command has unquoted special characters or unbalanced quotes"); msx_assert(w.w.size() == n + 1, "C15: the printed command has another number of words than the executed one");
  msx_assert(w.w[0] == exe, "C15: the printed program differs from the executed one"); for(unsigned i = 0; i < n; ++i) msx_assert(w.w[i + 1] == args[i], "C15: a printed argument differs from the executed one"); msx_reach("printed"); }
// --- C14
extern "C" void harness_id_print() { // printing: all 32 bytes are arbitrary
  std::array<std::byte, 32> b; msx_symbolic(b.data(), 32, "id"); Build::Id const id{b}; auto const s = toString(id);
  msx_assert(s.size() == 64, "C14: a printed build id does not have 64 digits");
  for(int i = 0; i < 64; ++i) { char c = s[i]; unsigned v = (unsigned)b[i / 2] >> (i % 2 ? 0 : 4) & 15; msx_assert(c == (char)(v + (v < 10 ? '0' : 'a' - 10)), "C14: a printed build id has a wrong digit"); }
  msx_reach("printed"); msx_observe((uint64_t)s[5]); }
extern "C" void harness_id_roundtrip() { // reading back: WINDOW consecutive arbitrary bytes anywhere, the other ones take all digits
  unsigned const at = (unsigned)msx_concretize(msx_range(0, 32 - WINDOW, "position")), up = (unsigned)msx_concretize(msx_range(0, 1, "upper")); unsigned char w[WINDOW]; msx_symbolic(w, WINDOW, "id");
  std::array<std::byte, 32> b; for(unsigned i = 0; i < 32; ++i) b[i] = (std::byte)(i >= at && i < at + WINDOW ? w[i - at] : (unsigned char)(i * 47 + 19));
  Build::Id const id{b}; auto s = toString(id); char t[65]; for(int i = 0; i < 64; ++i) t[i] = (char)msx_ite(up & (s[i] >= 'a'), (uint64_t)(s[i] - 32), (uint64_t)s[i]); t[64] = 0;
  Build::Id const back{t}; uint8_t diff = 0; for(int i = 0; i < 32; ++i) diff |= (uint8_t)(back.bytes()[i] ^ b[i]); msx_assert(diff == 0, "C14: a build id does not survive printing and reading"); msx_reach("roundtrip"); msx_observe(1); }
extern "C" void harness_id_reject() {
  // any single replaced character, and any length
  unsigned const n = (unsigned)msx_concretize(msx_range(0, 70, "digits")), at = (unsigned)msx_concretize(msx_range(0, 71, "position")); unsigned char c; msx_symbolic(&c, 1, "character"); msx_assume(c != 0);
  char t[72]; for(unsigned i = 0; i < n; ++i) t[i] = "0123456789abcdefABCDEF"[i % 22]; t[n] = 0; if(at < n) t[at] = (char)c; else msx_assume(at == 71 && c == '0');
  bool ok = true; try { Build::Id id{t}; } catch(std::exception const&) { ok = false; }
  bool const hex = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); bool const want = hex & (n == 64);
  msx_assert(!ok | want, "C14: text that is not 64 hexadecimal digits is taken for a build id"); msx_assert(ok | !want, "C14: a valid build id is rejected"); if(ok) msx_reach("accepted"); else msx_reach("rejected"); msx_observe(ok); }
// --- C23
template <class T, class F> static void names(T const* v, unsigned n, F parse) {
  for(unsigned i = 0; i < n; ++i) { msx_assert(parse(toString(v[i])) == v[i], "C23: a value does not survive printing and reading"); for(unsigned j = 0; j < i; ++j) msx_assert(strcmp(toString(v[i]), toString(v[j])) != 0, "C23: two values are printed alike"); }
  // every string that differs from a name in one place, or is a proper prefix or extension, is rejected
  unsigned const k = (unsigned)msx_concretize(msx_range(0, n - 1, "value")); std::string s = toString(v[k]); unsigned const how = (unsigned)msx_concretize(msx_range(0, 2, "change")), at = (unsigned)msx_concretize(msx_range(0, s.size() - 1, "position")); char c; msx_symbolic(&c, 1, "character"); msx_assume(c != 0);
  if(how == 0) { msx_assume(c != s[at]); s[at] = c; } else if(how == 1) s.resize(at); else s += c;
  bool ok = true; try { (void)parse(s.c_str()); } catch(std::exception const&) { ok = false; } msx_observe(ok); msx_assert(!ok, "C23: a misspelled name is accepted"); msx_reach("names"); }
extern "C" void harness_origin() { Db::SourceFileOrigin const v[] = {Db::SourceFileOrigin::Project, Db::SourceFileOrigin::Generated, Db::SourceFileOrigin::System, Db::SourceFileOrigin::PkgConfig}; names(v, 4, [](char const* s) { return fromString(KeyValueStore::Empty<Db::SourceFileOrigin>{}, s); }); }
extern "C" void harness_policy() { Db::RebuildPolicy const v[] = {Db::RebuildPolicy::Always, Db::RebuildPolicy::OnlyIfOutOfDate}; names(v, 2, [](char const* s) { return fromString(KeyValueStore::Empty<Db::RebuildPolicy>{}, s); }); }
#ifdef MORENAMES
extern "C" void harness_mode() { Generic::FilenameExtReplacementMode const v[] = {Generic::FilenameExtReplacementMode::Append, Generic::FilenameExtReplacementMode::Replace}; names(v, 2, [](char const* s) { return fromString(KeyValueStore::Empty<Generic::FilenameExtReplacementMode>{}, s); }); }
extern "C" void harness_loglevel() { using L = Db::CompilationLog::LogLevel; L const v[] = {L::Errors, L::SourceFileInfo, L::CompilationCommand}; names(v, 3, [](char const* s) { return fromString(Empty<L>{}, s); }); }
extern "C" void harness_logformat() { Db::LogFormat const v[] = {Db::LogFormat::PlainText, Db::LogFormat::AnsiTerm}; names(v, 2, [](char const* s) { return fromString(Empty<Db::LogFormat>{}, s); }); }
#endif
// --- C16
extern "C" void harness_number() {
  // a number of workers, or of seconds since the epoch
  unsigned const n = (unsigned)msx_concretize(msx_range(1, LEN, "digits")); char t[LEN + 2]; unsigned long v = 0; unsigned const neg = (unsigned)msx_concretize(msx_range(0, 1, "negative"));
  if(neg) t[0] = '-'; for(unsigned i = 0; i < n; ++i) { unsigned char d; msx_symbolic(&d, 1, "digit"); msx_assume(d < 10); if(i == 0 && n > 1) msx_assume(d != 0); t[i + neg] = (char)('0' + d); v = v * 10u + (unsigned)(t[i + neg] - '0'); } t[n + neg] = 0;
  SystemTimeStamp const ts{t}; msx_assert(ts.value() == std::chrono::system_clock::from_time_t(neg ? -(long)v : (long)v), "C16: a start time is read as another one");
  bool ok = true; int got = 0; try { got = ThreadCount{t}.value(); } catch(std::exception const&) { ok = false; }
  msx_assert(ok == !(neg || v == 0), "C16: a worker count below one is accepted, or a valid one rejected"); if(ok) msx_assert((unsigned long)got == v, "C16: a worker count is read as another one"); msx_observe(ok); msx_observe((uint64_t)got); msx_reach("number"); }
extern "C" void harness_badtime() { // a digit string with one non-digit
  unsigned const n = (unsigned)msx_concretize(msx_range(1, LEN, "digits")), at = (unsigned)msx_concretize(msx_range(0, LEN - 1, "position")); msx_assume(at < n); char t[LEN + 2]; for(unsigned i = 0; i < n; ++i) t[i] = '1'; t[n] = 0; unsigned char c; msx_symbolic(&c, 1, "character"); msx_assume(c != 0 && !(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(at == 0 && (c == '+' || c == '-' || c == ' ' || (c >= 9 && c <= 13)) && n > 1)); t[at] = (char)c;
  bool ok = true; try { SystemTimeStamp ts{t}; } catch(std::exception const&) { ok = false; } msx_observe(ok); msx_assert(!ok, "C16: text that is not a number is accepted as a start time"); msx_reach("bad time"); }
#ifdef CMDLINE
namespace {
char const* const NAMES[] = {"--help", "--version", "--about", "--print-dep-graph", "--print-dep-graph-inv", "--dump-database", "--list-targets", "--list-external-deps", "--targets", "--configfiles", "--configdump", "--config-default", "--source-dir", "--target-dir", "--build-id", "--start-time", "--num-workers", "--dry-run", "--force-rebuild", "--log-level", "--log-output-format"};
enum { NN = sizeof(NAMES) / sizeof(NAMES[0]) };
template <int... K> uint64_t given(CommandLine const& c, std::integer_sequence<int, K...>) { return ((c.hasOption<static_cast<CmdLineOption>(K)>() ? 1ull << K : 0) | ...); }
// 0: takes no value, 1: optional path, 2: path, 3: paths, 4: build id, 5: time, 6: count, 7: log level, 8: format
unsigned kind(unsigned k) { return k <= 7 ? 1 : k == 8 || k == 9 ? 3 : k == 10 ? 1 : k == 11 || k == 17 || k == 18 ? 0 : k == 12 || k == 13 ? 2 : k == 14 ? 4 : k == 15 ? 5 : k == 16 ? 6 : k == 19 ? 7 : 8; }
}
static fs::path const& pathOf(CommandLine const& c, unsigned k) {
  switch(k) { case 0: return c.option<CmdLineOption::Help>(); case 1: return c.option<CmdLineOption::Version>(); case 2: return c.option<CmdLineOption::About>(); case 3: return c.option<CmdLineOption::PrintDepGraph>(); case 4: return c.option<CmdLineOption::PrintDepGraphInv>(); case 5: return c.option<CmdLineOption::DumpDatabase>(); case 6: return c.option<CmdLineOption::ListTargets>(); case 7: return c.option<CmdLineOption::ListExternalDeps>(); case 10: return c.option<CmdLineOption::ConfigDump>(); case 12: return c.option<CmdLineOption::SourceDir>(); default: return c.option<CmdLineOption::TargetDir>(); } }
static uint64_t parse(std::vector<std::string>& a, std::unique_ptr<CommandLine>& c, bool& ok) { std::vector<char*> av; for(auto& s : a) av.push_back(s.data()); ok = true; try { c = std::make_unique<CommandLine>((int)av.size(), av.data()); } catch(std::exception const&) { ok = false; return 0; } return given(*c, std::make_integer_sequence<int, NN>{}); }
// one option, spelled correctly or damaged in one place
extern "C" void harness_option() {
  unsigned const k = (unsigned)msx_concretize(msx_range(0, NN - 1, "option")), how = (unsigned)msx_concretize(msx_range(0, 4, "spelling")); std::string s = NAMES[k]; bool name_ok = true;
  unsigned other = k;
  if(how == 1) {
#ifdef EVERY
    auto at = msx_concretize(msx_range(0, s.size() - 1, "position"));
#else
    size_t const where[] = {0, 2, s.size() / 2, s.size() - 1}; auto at = where[msx_concretize(msx_range(0, 3, "position"))];
#endif
    char c; msx_symbolic(&c, 1, "character"); msx_assume(c != 0 && c != '=' && c != s[at]); s[at] = c; name_ok = false; }
  if(how == 2) { auto at = msx_concretize(msx_range(0, s.size() - 1, "position")); s.resize(at); name_ok = false; }
  if(how == 3) { char c; msx_symbolic(&c, 1, "character"); msx_assume(c != 0 && c != '='); s += c; name_ok = false; }
  if(how == 2) for(unsigned i = 0; i < NN; ++i) if(s == NAMES[i]) { name_ok = true; other = i; }
  bool const empty = s.empty(); unsigned const val = how == 1 || how == 3 ? (unsigned)s.size() % 3 : (unsigned)msx_concretize(msx_range(0, 2, "value")); std::string v; unsigned const kd = kind(other);
  if(val == 1) s += '='; if(val == 2) { v = kd == 4 ? "39927ed592e3fe77e777e23e484d0a4615ad1b3d8260434945c57e97c30d049b" : kd == 5 ? "12" : kd == 6 ? "3" : kd == 7 ? "errors" : kd == 8 ? "ansi_term" : "x=y"; s += '=' + v; }
  std::vector<std::string> a{s}; std::unique_ptr<CommandLine> c; bool ok; auto const set = parse(a, c, ok); msx_observe(ok); msx_observe(set);
  if(empty && val == 0) { msx_assert(ok && set == 0, "C16: an empty argument is not ignored"); return; }
  bool const want = name_ok && (kd == 0 ? v.empty() : kd == 1 ? true : !v.empty());
  msx_assert(!ok || name_ok, "C16: an argument that is not the name of an option is accepted"); msx_assert(!ok || want, "C16: an option without its value, or with one that it does not take, is accepted"); msx_assert(ok || !want, "C16: a valid option is rejected");
  if(ok) { msx_assert(set == 1ull << other, "C16: another option than the given one is set"); if(kd == 1 || kd == 2) msx_assert(pathOf(*c, other).string() == v, "C16: an option gets another value than the given one");
    if(kd == 5) msx_assert(std::chrono::system_clock::to_time_t(c->option<CmdLineOption::StartTime>().value()) == 12, "C16: an option gets another value than the given one"); if(kd == 6) msx_assert(c->option<CmdLineOption::NumWorkers>().value() == 3, "C16: an option gets another value than the given one"); if(kd == 4) msx_assert(toString(c->option<CmdLineOption::BuildId>()) == v, "C16: an option gets another value than the given one");
    if(kd == 7) msx_assert(c->option<CmdLineOption::LogLevel>() == Db::CompilationLog::LogLevel::Errors, "C16: an option gets another value than the given one"); if(kd == 8) msx_assert(c->option<CmdLineOption::LogOutputFormat>() == Db::LogFormat::AnsiTerm, "C16: an option gets another value than the given one"); if(kd == 3) { auto const& p = other == 8 ? c->option<CmdLineOption::Targets>() : c->option<CmdLineOption::ConfigFiles>(); msx_assert(p.size() == 1 && p[0].string() == v, "C16: an option gets another value than the given one"); }
    msx_reach("accepted"); } else msx_reach("rejected"); }
// two options in either order: both are set, and the last one wins when they are the same
extern "C" void harness_options() {
  unsigned k[2]; std::vector<std::string> a; std::string v[2]; for(int i = 0; i < 2; ++i) { do { k[i] = (unsigned)msx_concretize(msx_range(0, 13, "option")); } while(false); v[i] = kind(k[i]) == 0 ? "" : text(1, LEN, "value"); for(char& c : v[i]) msx_assume((c != ',') & (c != '\\')); a.push_back(std::string(NAMES[k[i]]) + (kind(k[i]) ? "=" + v[i] : "")); }
  std::unique_ptr<CommandLine> c; bool ok; auto const set = parse(a, c, ok); msx_assert(ok, "C16: a valid option is rejected"); msx_assert(set == (1ull << k[0] | 1ull << k[1]), "C16: another option than the given one is set");
  for(int i = 0; i < 2; ++i) if(i == 1 || k[0] != k[1]) { auto kd = kind(k[i]); if(kd == 1 || kd == 2) msx_assert(pathOf(*c, k[i]).string() == v[i], "C16: an option gets another value than the given one"); if(kd == 3) { auto const& p = k[i] == 8 ? c->option<CmdLineOption::Targets>() : c->option<CmdLineOption::ConfigFiles>(); msx_assert(p.size() == 1 && p[0].string() == v[i], "C16: an option gets another value than the given one"); } }
  msx_reach("both"); msx_observe(set); }
// a list: elements are separated by commas, a backslash makes the next character ordinary
extern "C" void harness_list() {
  unsigned const n = (unsigned)msx_concretize(msx_range(1, ARGS, "elements")); std::vector<std::string> e; std::string s = "--targets="; for(unsigned i = 0; i < n; ++i) { e.push_back(text(i + 1 == n ? 1 : 0, LEN, "element")); if(i) s += ','; for(char c : e[i]) { unsigned const esc = (unsigned)msx_range(0, 1, "escape"); msx_assume(esc | ((c != ',') & (c != '\\'))); if(esc) s += '\\'; s += c; } }
  std::vector<std::string> a{s}; std::unique_ptr<CommandLine> c; bool ok; (void)parse(a, c, ok); msx_assert(ok, "C16: a valid list is rejected"); auto const& p = c->option<CmdLineOption::Targets>(); msx_observe(p.size()); msx_assert(p.size() == n, "C16: a list has another number of elements than given"); for(unsigned i = 0; i < n; ++i) msx_assert(p[i].string() == e[i], "C16: an element of a list is altered"); msx_reach("list"); }
#endif

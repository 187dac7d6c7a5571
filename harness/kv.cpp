// C11 (buffered streams), C20 (combining configurations), C22 (reading structured text).
#include "msx.h"
#include "core/io/input_buffer.hpp"
#include "core/io/output_buffer.hpp"
#include "core/io/mem_io_redirector.hpp"
#include "core/io/fifo.hpp"
#include "core/io/reader.hpp"
#include "core/io/writer.hpp"
#include "core/key_value_store/compound.hpp"
#include "core/key_value_store/array.hpp"
#include "core/db/compiler.hpp"
#ifdef RECIPE
#include "core/exec/execve.hpp"
#endif
#include <string>
#include <vector>
#include <cstring>
using namespace Maike;
namespace Kv = Maike::KeyValueStore;
#ifndef LEN
#define LEN 4
#endif
#ifndef WIDE
#define WIDE 2
#endif
namespace {
// a source that hands out its bytes in pieces of any size
struct Src { char const* s; size_t n, at = 0, reads = 0; bool ended = false; };
size_t read(Src& x, std::byte* b, size_t n) {
  msx_assert(!x.ended, "C11: a source is read again after it has ended");
  msx_assert(n > 0, "C11: nothing is asked for, which looks like the end");
  size_t k = x.n - x.at; if(k > n) k = n; if(k > 1) k = msx_concretize(msx_range(1, k, "piece")); memcpy(b, x.s + x.at, k); x.at += k; ++x.reads; if(k == 0) x.ended = true; return k; }
struct Sink { std::string s; };
void write(Sink& x, std::byte const* b, size_t n) { x.s.append((char const*)b, n); }
struct Mem { std::string const* s; size_t at = 0; };
size_t take(void* b, size_t n, void* d) { Mem& m = *(Mem*)d; size_t k = m.s->size() - m.at; if(k > n) k = n; memcpy(b, m.s->data() + m.at, k); m.at += k; return k; }
struct Text { std::string s; };
void write(Text& x, char const* b, size_t n) { x.s.append(b, n); }
std::string dump(json_t const* j) { Text t; Kv::store(j, t, Kv::PrettyPrint{false}); return t.s; }
constexpr size_t flags = JSON_DISABLE_EOF_CHECK | JSON_DECODE_ANY | JSON_REJECT_DUPLICATES;
}
static bool same(void const* a, void const* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
// --- C11
extern "C" void harness_input() {
  char b[LEN]; unsigned const n = (unsigned)msx_concretize(msx_range(0, LEN, "length")); if(n) msx_symbolic(b, n, "bytes"); Src s{b, n};
  if(msx_concretize(msx_range(0, 1, "erased"))) { Io::Reader r{s}; Io::InputBuffer<Io::Reader, 2> in{r}; for(unsigned i = 0; i < n; ++i) msx_assert(in.getchar() == (int)(unsigned char)b[i], "C11: a byte read from a stream differs, or is lost"); msx_assert(in.getchar() == -1, "C11: the end of a stream is not seen"); }
  else { Io::InputBuffer<std::reference_wrapper<Src>, 3> in{std::ref(s)}; for(unsigned i = 0; i < n; ++i) msx_assert(in.getchar() == (int)(unsigned char)b[i], "C11: a byte read from a stream differs, or is lost"); msx_assert(in.getchar() == -1, "C11: the end of a stream is not seen"); }
  msx_reach("read"); }
extern "C" void harness_output() {
  char b[LEN]; unsigned const n = (unsigned)msx_concretize(msx_range(0, LEN, "length")); if(n) msx_symbolic(b, n, "bytes"); Sink s;
  if(msx_concretize(msx_range(0, 1, "erased"))) { Io::Writer w{s}; Io::OutputBuffer<Io::Writer, 2> out{w}; for(unsigned i = 0; i < n; ++i) { out.putchar((std::byte)b[i]); if(msx_concretize(msx_range(0, 1, "flush"))) { out.flush(); msx_assert(s.s.size() == i + 1, "C11: flushing keeps bytes back"); } } }
  else { Io::OutputBuffer<std::reference_wrapper<Sink>, 3> out{std::ref(s)}; for(unsigned i = 0; i < n; ++i) out.putchar(b[i]); }
  msx_assert(s.s.size() == n, "C11: bytes written to a stream are lost or repeated"); for(unsigned i = 0; i < n; ++i) msx_assert(s.s[i] == b[i], "C11: a byte written to a stream is altered");
  msx_reach("written"); }
// the buffers as they are used: large, with the sizes that matter around their capacity
extern "C" void harness_large() {
  size_t const base = 4096 * msx_concretize(msx_range(0, 2, "blocks")), n = base + msx_concretize(msx_range(base ? 0 : 2, base ? 3 : 4, "more")) - (base ? 1 : 0); std::string b(n, 'x'); for(size_t i = 0; i < n; ++i) b[i] = (char)(i * 7 + i / 256);
  char v[2]; msx_symbolic(v, 2, "bytes"); size_t const at = msx_concretize(msx_range(0, 2, "where")), pos = at == 0 ? 0 : at == 1 ? (n > 4097 ? 4095 : n / 2 - 1) : n - 2; b[pos] = v[0]; b[pos + 1] = v[1];
  struct Big { std::string const& s; size_t at = 0; }; struct Local { static size_t rd(void* p, std::byte* o, size_t k) { Big& x = *(Big*)p; size_t m = x.s.size() - x.at; if(m > k) m = k; memcpy(o, x.s.data() + x.at, m); x.at += m; return m; } };
  Sink s; Mem m{&b}; { struct R { Mem* m; }; Io::Fifo<std::byte> f; { Io::Writer w{f}; Io::OutputBuffer<Io::Writer> out{w}; for(size_t i = 0; i < n; ++i) out.putchar(b[i]); } f.stop();
    Io::Reader r{f}; Io::InputBuffer<Io::Reader> in{r}; { Io::Writer w{s}; Io::OutputBuffer<Io::Writer> out{w}; for(;;) { int c = in.getchar(); if(c == -1) break; out.putchar((std::byte)c); } } }
  msx_assert(s.s.size() == n, "C11: bytes passed through a stream are lost or repeated"); for(size_t i = 0; i < n; ++i) msx_assert(s.s[i] == b[i], "C11: a byte passed through a stream is altered"); msx_reach("large"); }
extern "C" void harness_redirect() {
  char b[LEN]; unsigned const n = (unsigned)msx_concretize(msx_range(0, LEN, "length")); if(n) msx_symbolic(b, n, "bytes"); Io::MemRedirector r{(std::byte const*)b, n}; std::string got, o, e;
  for(;;) { std::byte t[LEN]; size_t const want = msx_concretize(msx_range(1, LEN, "want")), k = r(t, want, Io::Redirector::StdIn{}); msx_assert(k <= want, "C11: more is read than asked for"); if(k == 0) break; got.append((char*)t, k); msx_assert(got.size() <= n, "C11: input is repeated"); }
  msx_assert(got.size() == n && same(got.data(), b, n), "C11: the input of a program is altered or lost");
  for(unsigned i = 0; i < n;) { unsigned const k = (unsigned)msx_concretize(msx_range(1, n - i, "piece")); if(msx_concretize(msx_range(0, 1, "error"))) { r((std::byte const*)b + i, k, Io::Redirector::StdErr{}); e.append(b + i, k); } else { r((std::byte const*)b + i, k, Io::Redirector::StdOut{}); o.append(b + i, k); } i += k; }
  msx_assert(r.stdout().size() == o.size() && same(r.stdout().data(), o.data(), o.size()), "C11: captured output is altered"); msx_assert(r.stderr().size() == e.size() && same(r.stderr().data(), e.data(), e.size()), "C11: captured output is altered"); msx_reach("redirected"); }
// --- C22
namespace {
void load(std::string const& t, bool pieces) {
  Mem m{&t}; json_t* const want = json_load_callback(take, &m, flags, nullptr); bool blank = true; for(char c : t) blank &= (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r');
  std::string got; int state = 0; struct One { std::string const& t; size_t at; bool ended; };
  try { Kv::JsonHandle h; if(pieces) { Src s{t.data(), t.size()}; h = Kv::jsonLoad(s, "name"); } else { Io::Fifo<std::byte> f; if(t.size()) f.write((std::byte const*)t.data(), t.size()); f.stop(); h = Kv::jsonLoad(f, "name"); } if(h.valid()) { state = 1; got = dump(h.handle()); } } catch(std::exception const&) { state = 2; }
  msx_observe((unsigned)state);
  if(want) { msx_assert(state == 1, "C22: well-formed text is rejected or ignored"); msx_assert(got == dump(want), "C22: the text is read as something else"); msx_reach("accepted"); json_decref(want); }
  else if(blank) { msx_assert(state == 0, "C22: blank text is not taken as empty"); msx_reach("blank"); }
  else { msx_assert(state == 2, "C22: malformed or truncated text is not rejected"); msx_reach("rejected"); } } }
extern "C" void harness_load() { char b[LEN]; unsigned const n = (unsigned)msx_concretize(msx_range(0, LEN, "length")); if(n) msx_symbolic(b, n, "bytes"); load(std::string(b, n), true); }
extern "C" void harness_truncated() {
  static char const* const T[] = {"   {\"targets\":[{\"name\":\"a.o\", \"type\":\"object\"}]\n   }\n", "{\"a\":{\"b\":[1,2,{\"c\":null}]},\"d\":true}", "[\"x\", -12, [], {}]", "\t\"text\"  ", "1234", "{\"a\":1,\"b\":[],\"a\":2}", "{\"a\":{\"k\":1,\"k\":1}}"};
  std::string t = T[msx_concretize(msx_range(0, 6, "text"))]; size_t const k = msx_concretize(msx_range(0, 60, "kept")); msx_assume(k <= t.size()); t.resize(k);
  if(k && msx_concretize(msx_range(0, 1, "damage"))) { size_t const at = msx_concretize(msx_range(0, 59, "where")); msx_assume(at + 1 == k || (WIDE > 2 && at < k)); char v; msx_symbolic(&v, 1, "byte"); t[at] = v; } load(t, false); }
#ifdef RECIPE
static std::string out; // what the recipe prints
Exec::Result Maike::Exec::execve(fs::path const&, std::vector<std::string> const&) { std::vector<std::byte> o((std::byte const*)out.data(), (std::byte const*)out.data() + out.size()); return Exec::Result{Exec::ExitStatus{}.returnCode(0), std::move(o), std::vector<std::byte>{}}; }
#endif
// --- C20
namespace {
struct Val { int kind; json_int_t num; std::vector<std::pair<char, Val>> sub; }; // 0 integer, 1 string, 2 true, 3 false, 4 null, 5 array, 6 compound
Val any(int depth, unsigned kinds) {
  Val v; v.kind = (int)msx_concretize(msx_range(0, depth > 0 ? 6 : 4, "kind")); msx_assume(kinds >> v.kind & 1); v.num = 0;
  if(v.kind == 0) { static json_int_t next = 7; v.num = next++; }
  if(v.kind == 1) v.num = (json_int_t)msx_range('0', '9', "value");
  if(v.kind == 5) { unsigned const n = (unsigned)msx_concretize(msx_range(0, 1, "length")); for(unsigned i = 0; i < n; ++i) v.sub.push_back({0, any(depth - 1, 0x21)}); }
  if(v.kind == 6) for(char k = 'k'; k < 'k' + WIDE; ++k) if(msx_concretize(msx_range(0, 1, "present"))) v.sub.push_back({k, any(depth - 1, kinds)});
  return v; }
json_t* build(Val const& v) {
  switch(v.kind) {
    case 0: return json_integer(v.num); case 1: { char s[2] = {(char)v.num, 0}; return json_string(s); } case 2: return json_true(); case 3: return json_false(); case 4: return json_null();
    case 5: { json_t* a = json_array(); for(auto const& x : v.sub) json_array_append_new(a, build(x.second)); return a; }
    default: { json_t* a = json_object(); for(auto const& x : v.sub) { char k[2] = {x.first, 0}; json_object_set_new(a, k, build(x.second)); } return a; } } }
bool boolean(int k) { return k == 2 || k == 3; }
struct Mismatch {};
Val merge(Val const& a, Val const& b) {
  if(!(a.kind == b.kind || (boolean(a.kind) && boolean(b.kind)))) throw Mismatch{};
  if(a.kind == 5) { Val r = a; for(auto const& x : b.sub) r.sub.push_back(x); return r; }
  if(a.kind != 6) return b;
  Val r{6, 0, {}}; for(char k = 'k'; k < 'k' + WIDE; ++k) { Val const* x = nullptr; Val const* y = nullptr; for(auto const& e : a.sub) if(e.first == k) x = &e.second; for(auto const& e : b.sub) if(e.first == k) y = &e.second; if(x && y) r.sub.push_back({k, merge(*x, *y)}); else if(x) r.sub.push_back({k, *x}); else if(y) r.sub.push_back({k, *y}); }
  return r; }
std::string text(Val const& v) { json_t* j = build(v); std::string s = dump(j); json_decref(j); return s; }
Val top(unsigned kinds) { Val v{6, 0, {}}; for(char k = 'k'; k < 'k' + WIDE; ++k) if(msx_concretize(msx_range(0, 1, "present"))) v.sub.push_back({k, any(DEPTH, kinds)}); return v; }
Kv::Compound compound(Val const& v) { Kv::JsonHandle h{build(v), "name"}; return Kv::Compound{Kv::CompoundRefConst{h.reference()}}; }
}
extern "C" void harness_merge() {
  Val const a = top(KINDS), b = top(KINDS); Val want{}; bool bad = false; try { want = merge(a, b); } catch(Mismatch const&) { bad = true; }
  Kv::Compound x = compound(a); bool threw = false; { Kv::Compound y = compound(b); try { x |= y; } catch(std::runtime_error const&) { threw = true; } msx_assert(dump(y.handleReference().handle()) == text(b), "C20: combining configurations alters the second one"); }
  msx_assert(threw == bad, bad ? "C20: values of different kinds are combined" : "C20: configurations that go together are rejected"); if(bad) { msx_reach("rejected"); return; }
  msx_assert(dump(x.handleReference().handle()) == text(want), "C20: the combined configuration is wrong"); msx_reach("merged"); }
extern "C" void harness_compiler() {
  static char const* const R[] = {"", "a.py", "b.py"}; Val const va = top(0x41), vb = top(0x41); Val want{}; try { want = merge(va, vb); } catch(Mismatch const&) { return; }
  auto origin = [](unsigned i) { return i ? std::optional<Db::SourceFileOrigin>{i == 1 ? Db::SourceFileOrigin::Project : Db::SourceFileOrigin::System} : std::optional<Db::SourceFileOrigin>{}; };
  unsigned const ra = (unsigned)msx_concretize(msx_range(0, 2, "recipe")), rb = (unsigned)msx_concretize(msx_range(0, 2, "recipe")), oa = (unsigned)msx_concretize(msx_range(0, 2, "origin")), ob = (unsigned)msx_concretize(msx_range(0, 2, "origin")), ta = (unsigned)msx_concretize(msx_range(0, 1, "tags")), tb = (unsigned)msx_concretize(msx_range(0, 1, "tags"));
  Db::Compiler const a{fs::path{R[ra]}, origin(oa), compound(va), ta != 0}, b{fs::path{R[rb]}, origin(ob), compound(vb), tb != 0}; Db::Compiler const c = a | b;
  msx_assert(c.recipe() == R[rb ? rb : ra], "C20: the wrong recipe is used"); msx_assert(c.origin() == origin(ob ? ob : oa), "C20: the recipe is looked for in the wrong place"); msx_assert(c.useGetTags() == (tb != 0), "C20: whether a recipe is asked for tags is wrong");
  msx_assert(dump(c.config().handleReference().handle()) == text(want), "C20: the combined compiler configuration is wrong"); msx_assert(dump(a.config().handleReference().handle()) == text(va) && dump(b.config().handleReference().handle()) == text(vb), "C20: combining configurations alters them"); msx_reach("combined"); }
#ifdef RECIPE
extern "C" void harness_recipe() {
  size_t const pad = msx_concretize(msx_range(0, 3, "size")); static size_t const P[] = {0, 900, 4070, 9000}; char v[2]; msx_symbolic(v, 2, "bytes"); for(char c : v) msx_assume((c > ' ') & (c != '"') & (c != '\\') & (c < 127));
  out = "{\"p\":\"" + std::string(P[pad], 'x') + v[0] + "\",\"dependencies\":[{\"ref\":\"" + v[1] + "\"}]}"; unsigned const cut = (unsigned)msx_concretize(msx_range(0, 2, "cut")); if(cut == 1) out.resize(out.size() - 1); if(cut == 2) out.resize(out.size() / 2 + 1); bool threw = false; Kv::Compound t;
  try { t = Db::getTags(Db::Compiler{"recipe", true}, "source"); } catch(std::exception const&) { threw = true; }
  msx_assert(threw == (cut != 0), cut ? "C22: truncated output of a recipe is not rejected" : "C22: the output of a recipe is rejected"); if(cut) { msx_reach("rejected"); return; }
  msx_assert(dump(t.handleReference().handle()) == "{\"dependencies\": [{\"ref\": \"" + std::string(1, v[1]) + "\"}], \"p\": \"" + std::string(P[pad], 'x') + v[0] + "\"}", "C22: the output of a recipe is not read completely"); msx_reach("read"); }
#endif

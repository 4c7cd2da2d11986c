// Shared driver scaffolding: reads scenarios (one JSON object per line, with
// "ops": [...]), runs each in a forked child, writes the recorded trace (the
// same object with "ev": one event per executed op, args plus observations).
// A child that dies or hangs yields an event with "crash".
#pragma once
#include <json.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

namespace vf {
// --- JSON value wrappers -------------------------------------------------
struct J {
  json_object* o;
  J(json_object* p = nullptr) : o(p) {}
  J operator[](const char* k) const {
    json_object* r = nullptr;
    if (o && json_object_is_type(o, json_type_object))
      json_object_object_get_ex(o, k, &r);
    return J(r);
  }
  J operator[](const std::string& k) const { return (*this)[k.c_str()]; }
  bool has(const char* k) const {
    return o && json_object_is_type(o, json_type_object) &&
           json_object_object_get_ex(o, k, nullptr);
  }
  size_t size() const { return o ? json_object_array_length(o) : 0; }
  J at(size_t i) const { return J(json_object_array_get_idx(o, i)); }
  std::string s(const char* d = "") const {
    return o ? std::string(json_object_get_string(o),
                           json_object_get_string_len(o))
             : std::string(d);
  }
  int64_t i(int64_t d = 0) const { return o ? json_object_get_int64(o) : d; }
  double d() const { return o ? json_object_get_double(o) : 0; }
  bool b(bool d = false) const { return o ? json_object_get_boolean(o) : d; }
};

// Values written to traces are valid UTF-8 (TLC's reader replaces or drops
// anything else): invalid bytes are written as \xHH text.
inline std::string Clean(const std::string& in) {
  std::string out;
  for (size_t i = 0; i < in.size();) {
    unsigned char c = in[i];
    size_t n = c < 0x80 ? 1 : (c >= 0xC2 && c < 0xE0) ? 2 : (c >= 0xE0 && c < 0xF0) ? 3 : (c >= 0xF0 && c < 0xF5) ? 4 : 0;
    bool ok = n > 0 && i + n <= in.size();
    for (size_t k = 1; ok && k < n; ++k) ok = (static_cast<unsigned char>(in[i + k]) & 0xC0) == 0x80;
    if (ok && c != 0) { out.append(in, i, n); i += n; }
    else { char b[8]; snprintf(b, sizeof b, "\\x%02X", c); out += b; ++i; }
  }
  return out;
}

struct W {  // JSON writer
  std::string t;
  bool first = true;
  void sep() { if (!first) t += ','; first = false; }
  static std::string q(const std::string& s0) {
    std::string s = Clean(s0), r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  W& k(const char* key) { sep(); t += q(key); t += ':'; first = true; return *this; }
  W& v(const std::string& s) { sep(); t += q(s); return *this; }
  W& v(const char* s) { return v(std::string(s)); }
  W& v(bool b) { sep(); t += b ? "true" : "false"; return *this; }
  W& v(int x) { return v(static_cast<long long>(x)); }
  W& v(size_t x) { return v(static_cast<long long>(x)); }
  W& v(long x) { return v(static_cast<long long>(x)); }
  W& v(long long x) { sep(); t += std::to_string(x); return *this; }
  W& raw(const std::string& s) { sep(); t += s; return *this; }
  W& ob() { sep(); t += '{'; first = true; return *this; }
  W& oe() { t += '}'; first = false; return *this; }
  W& ab() { sep(); t += '['; first = true; return *this; }
  W& ae() { t += ']'; first = false; return *this; }
  template <class T> W& kv(const char* key, const T& x) { return k(key).v(x); }
  W& strs(const std::vector<std::string>& xs) { ab(); for (auto& x : xs) v(x); return ae(); }
};

// Shared area in which a child publishes finished events, so that they survive
// its death.
struct Out {
  char* p; size_t cap; size_t* len;
  static Out& get() { static Out o; return o; }
  void init(size_t c) {
    cap = c;
    p = static_cast<char*>(mmap(nullptr, c + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    len = reinterpret_cast<size_t*>(p); p += 4096;
  }
  void reset() { *len = 0; }
  void put(const std::string& s) {
    if (*len + s.size() > cap) abort();
    memcpy(p + *len, s.data(), s.size()); *len += s.size();
  }
};

// Merge: op's own members followed by observation members.
inline void Emit(J op, const std::string& obsMembers) {
  std::string a = json_object_to_json_string_ext(op.o, JSON_C_TO_STRING_PLAIN | JSON_C_TO_STRING_NOSLASHESCAPE);
  std::string r;
  a.pop_back();
  r = a + (a.size() > 1 ? "," : "") + "\"o\":{" + obsMembers + "}}";
  Out& o = Out::get();
  o.put((*o.len ? "," : "") + r);
}

using RunFn = std::function<void(J scenario)>;

// Drivers call Emit once per op, in order.
inline int Main(int argc, char** argv, const RunFn& run, unsigned timeout = 20,
                bool nofork = false) {
  if (argc < 3) { fprintf(stderr, "usage: drv scenarios.ndjson trace.ndjson\n"); return 2; }
  Out::get().init(size_t(256) << 20);
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  if (!in || !out) { fprintf(stderr, "cannot open files\n"); return 2; }
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    json_object* root = json_tokener_parse(line.c_str());
    if (!root) { fprintf(stderr, "bad scenario\n"); return 2; }
    J sc(root);
    Out::get().reset();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      if (!freopen("/dev/null", "w", stdout)) _exit(97);
      if (!getenv("VF_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(97); }
      alarm(timeout);
      run(sc);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string body(Out::get().p, *Out::get().len);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      // count finished events to know which op died
      size_t n = 0;
      json_object* arr = json_tokener_parse(("[" + body + "]").c_str());
      if (arr) n = json_object_array_length(arr);
      J ops = sc["ops"];
      std::string why = WIFSIGNALED(st) ? (std::string("signal ") + std::to_string(WTERMSIG(st))) : (std::string("exit ") + std::to_string(WEXITSTATUS(st)));
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) why = "hang";
      std::string a = n < ops.size() ? json_object_to_json_string_ext(ops.at(n).o, JSON_C_TO_STRING_PLAIN | JSON_C_TO_STRING_NOSLASHESCAPE) : std::string("{\"k\":\"END\"}");
      a.pop_back();
      body += (body.empty() ? "" : ",") + a + (a.size() > 1 ? "," : "") + "\"crash\":\"" + why + "\"}";
      if (arr) json_object_put(arr);
    }
    json_object_object_del(root, "ops");
    std::string hdr = json_object_to_json_string_ext(root, JSON_C_TO_STRING_PLAIN | JSON_C_TO_STRING_NOSLASHESCAPE);
    hdr.pop_back();
    out << hdr << (hdr.size() > 1 ? "," : "") << "\"ev\":[" << body << "]}\n";
    json_object_put(root);
  }
  out.flush();
  return out ? 0 : 2;
}
}  // namespace vf

// Native replay runtime: feeds a counterexample's values to the harness.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

static std::map<std::string, std::string> inputs; // name -> little-endian bytes
static std::map<std::string, unsigned long> params;
static std::map<std::string, unsigned> counts;
static bool dry = false;

extern "C" {
void symx_make(void *p, unsigned long n, const char *name) {
    auto one = [&](const std::string &base, unsigned char *q, unsigned long k) {
        unsigned c = counts[base]++;
        std::string full = base + (c ? "#" + std::to_string(c) : "");
        memset(q, 0, k);
        auto it = inputs.find(full);
        if (it != inputs.end()) memcpy(q, it->second.data(), std::min<size_t>(k, it->second.size()));
    };
    if (n <= 8) one(name, (unsigned char *)p, n);
    else for (unsigned long i = 0; i < n; i++) one(std::string(name) + "[" + std::to_string(i) + "]", (unsigned char *)p + i, 1);
}
void symx_assume(int c) {
    if (!c) { fprintf(stderr, "REPLAY: assumption not satisfied\n"); fflush(stderr); _Exit(77); }
}
void symx_assert(int c, const char *msg) {
    if (!c) { fprintf(stderr, "REPLAY: assertion failed: %s\n", msg); fflush(stderr); _Exit(99); }
}
void symx_known_memory(const char *) {}
void symx_known(int c, const char *msg, const char *id) {
    if (!c) { fprintf(stderr, "REPLAY: known finding %s: %s\n", id, msg); fflush(stderr); _Exit(98); }
}
void symx_cover(const char *) {}
unsigned long symx_concrete(unsigned long v) { return v; }
unsigned long symx_param(const char *name, unsigned long d) {
    auto it = params.find(name);
    return it == params.end() ? d : it->second;
}
unsigned long symx_live_heap() { return 0; }
void symx_throw_filesystem_error() { throw std::filesystem::filesystem_error("modelled", std::make_error_code(std::errc::no_such_file_or_directory)); }
void symx_unsupported(const char *) { _Exit(77); }
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k, name, hex;
        unsigned long n;
        is >> k;
        if (k == "input") {
            // the name may hold spaces: size and value are the last two words
            std::string rest;
            std::getline(is >> std::ws, rest);
            size_t b2 = rest.rfind(' '), b1 = rest.rfind(' ', b2 - 1);
            name = rest.substr(0, b1);
            n = strtoul(rest.c_str() + b1, nullptr, 10);
            hex = rest.substr(b2 + 1);
            if (hex.size() % 2) hex = "0" + hex;
            std::string b;
            for (long i = (long)hex.size() - 2; i >= 0; i -= 2) b.push_back((char)strtoul(hex.substr(i, 2).c_str(), nullptr, 16));
            b.resize(n, '\0');
            inputs[name] = b;
        } else if (k == "param") { is >> name >> n; params[name] = n; }
    }
    std::set_terminate([] { fprintf(stderr, "REPLAY: std::terminate\n"); fflush(stderr); _Exit(97); });
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    fn();
    printf("REPLAY: no violation\n");
    return 0;
}

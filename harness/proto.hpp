// Line protocol shared by the harness programs: one request per line (an operation and integers,
// vectors prefixed with their length), one answer line of "name:values;" fields.
#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

struct Req {
    std::istringstream in;
    explicit Req(const std::string& s) : in(s) {}
    long num() { long x = 0; if (!(in >> x)) { std::cerr << "HARNESS: short request" << std::endl; std::_Exit(77); } return x; }
    double real() { std::string s; in >> s; return std::stod(s); }
    std::string word() { std::string s; in >> s; return s; }
    template <class T> std::vector<T> vec() { long n = num(); std::vector<T> v; for (long i = 0; i < n; i++) v.push_back((T)num()); return v; }
    template <class T> std::vector<std::pair<T, T>> pairs() {
        long n = num(); std::vector<std::pair<T, T>> v;
        for (long i = 0; i < n; i++) { T a = (T)num(); T b = (T)num(); v.push_back({a, b}); }
        return v;
    }
};

struct Ans {
    std::ostringstream out;
    template <class T> void one(const char* k, const T& x) { out << k << ":" << x << ";"; }
    template <class C> void seq(const char* k, const C& c) { out << k << ":"; for (auto const& x : c) out << x << " "; out << ";"; }
    template <class C> void prs(const char* k, const C& c) { out << k << ":"; for (auto const& x : c) out << x.first << " " << x.second << " "; out << ";"; }
    template <class C> void seqs(const char* k, const C& c) { out << k << ":"; for (auto const& s : c) { for (auto const& x : s) out << x << " "; out << "/ "; } out << ";"; }
};

template <class F> int serve(F f) {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        Req q(line);
        Ans a;
        f(q, a);
        std::cout << "=" << a.out.str() << std::endl;
    }
    return 0;
}

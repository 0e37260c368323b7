// Runs the array utilities on given inputs: util IN OUT.  One JSON object per scenario.
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "dwave-optimization/array.hpp"
#include "dwave-optimization/utils.hpp"

using namespace dwave::optimization;
using Vec = std::vector<ssize_t>;
static const long NONE = 2147483647;
static const long NANV = 2000000001;

static std::string js(const Vec& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}

struct In {
    std::istringstream is;
    explicit In(const std::string& l) : is(l) {}
    std::string w() { std::string s; is >> s; return s; }
    ssize_t i() { ssize_t x = 0; is >> x; return x; }
    std::optional<ssize_t> o() { ssize_t x = i(); if (x == NONE) return std::nullopt; return x; }
    Vec v() { Vec r(i()); for (auto& x : r) x = i(); return r; }
};

static Vec strides_of(const Vec& shape) {
    Vec s(shape.size());
    ssize_t k = sizeof(double);
    for (ssize_t a = (ssize_t)shape.size() - 1; a >= 0; --a) { s[a] = k; k *= shape[a]; }
    return s;
}

// an iterator over some memory, and everything it needs
struct Mem {
    std::vector<double> data, mask;
    double fill = -7;
    Vec shape, strides;
    ssize_t base = 0;
    std::string kind;
    Array::const_iterator begin() {
        const double* p = data.data() + base;
        if (kind == "contiguous") return Array::const_iterator(p);
        if (kind == "masked") return Array::const_iterator(p, mask.data(), &fill);
        return Array::const_iterator(p, (ssize_t)shape.size(), shape.data(), strides.data());
    }
};

struct Runner {
    int fd;
    Mem mem;
    std::vector<Array::const_iterator> regs;
    void put(const std::string& s) { if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) _exit(91); }

    std::string one(In& in, const std::string& e) {
        if (e == "slice") {
            auto a = in.o(), b = in.o(), c = in.o();
            ssize_t n = in.i();
            Slice f = Slice(a, b, c).fit_at(n);
            Slice g = Slice(a, b, c).fit(n);
            return "\"r\":" + js({f.start, f.stop, f.step, (ssize_t)f.size(), ssize_t(f == g)});
        }
        if (e == "bshape") {
            Vec a = in.v(), b = in.v();
            return "\"r\":" + js(broadcast_shape(a, b));
        }
        if (e == "unravel") {
            Vec s = in.v();
            return "\"r\":" + js(unravel_index(strides_of(s), in.i()));
        }
        if (e == "ravel") {
            Vec s = in.v(), x = in.v();
            return "\"r\":" + js({ravel_multi_index(strides_of(s), x)});
        }
        if (e == "integer") {
            ssize_t v = in.i(), S = in.i();
            return "\"r\":" + js({ssize_t(is_integer((double)v / S))});
        }
        if (e == "dedup") {
            ssize_t n = in.i();
            std::vector<Update> d;
            auto val = [&]() { ssize_t x = in.i(); return x == NANV ? Update::nothing : (double)x; };
            for (ssize_t k = 0; k < n; ++k) { ssize_t i = in.i(); double a = val(), b = val(); d.push_back(Update(i, a, b)); }
            deduplicate_diff(d);
            std::string s = "[";
            auto out = [](double x) { return std::isnan(x) ? (ssize_t)NANV : (ssize_t)std::llround(x); };
            for (size_t k = 0; k < d.size(); ++k) s += (k ? "," : "") + js({d[k].index, out(d[k].old), out(d[k].value)});
            return "\"r\":" + s + "]";
        }
        if (e == "update") {
            auto val = [&]() { ssize_t x = in.i(); return x == NANV ? Update::nothing : (double)x; };
            ssize_t i = in.i(), j = in.i();
            double a = val(), b = val(), c = val(), d = val();
            Update u(i, a, b), w(j, c, d);
            if (std::isnan(a) && !std::isnan(b)) u = Update::placement(i, b);
            if (std::isnan(b) && !std::isnan(a)) u = Update::removal(i, a);
            return "\"r\":" + js({u.placed(), u.removed(), u.null(), u.identity(), (ssize_t)u.old_or(77), (ssize_t)u.value_or(77), u < w, Update::equals(u, w)});
        }
        if (e == "kahan") {
            // one big term, then small ones
            const double big = 18014398509481984.0;     // 2^54
            ssize_t sign = in.i();
            Vec x = in.v();
            double_kahan k(sign > 0 ? big : -big);
            for (auto& y : x) {
                if (y % 2) k += (double)y;
                else k -= -(double)y;
            }
            return "\"r\":" + js({(ssize_t)(k.value() - sign * big), k == (double)k});
        }
        if (e == "frac") {
            // numerator denominator, then operations
            ssize_t n = in.i(), d = in.i(), m = in.i();
            fraction f = d == NONE ? fraction(n) : fraction(n, d);
            auto show = [](fraction& f, ssize_t eqi) {
                double v = (double)f;
                return js({f.numerator(), f.denominator(), (ssize_t)f, ssize_t(std::abs(v * f.denominator() - (double)f.numerator()) < 1e-9), eqi});
            };
            std::string s = "[" + show(f, f == n);
            for (ssize_t k = 0; k < m; ++k) {
                std::string op = in.w();
                ssize_t x = in.i(), y = in.i();
                if (op == "m") f *= x;
                else if (op == "M") f = f * x;
                else if (op == "d") f /= x;
                else if (op == "D") f = f / x;
                else f *= fraction(x, y);
                s += "," + show(f, op == "f" ? f == fraction(x, y) : f == x);
            }
            return "\"r\":" + s + "]";
        }
        if (e == "mem") {
            mem.kind = in.w();
            ssize_t n = in.i();
            mem.data.resize(n);
            for (ssize_t k = 0; k < n; ++k) mem.data[k] = k;
            mem.base = in.i();
            mem.shape = in.v();
            mem.strides = in.v();
            for (auto& s : mem.strides) s *= sizeof(double);
            Vec m = in.v();
            mem.mask.assign(m.begin(), m.end());
            regs.clear();
            for (int k = 0; k < 3; ++k) regs.push_back(mem.begin());
            return "\"r\":[]";
        }
        if (e == "it") {
            std::string op = in.w();
            ssize_t a = in.i(), b = in.i(), k = in.i(), read = in.i();
            auto &x = regs[a], &y = regs[b];
            Vec r;
            if (op == "inc") ++x;
            else if (op == "dec") --x;
            else if (op == "pinc") { auto t = x++; y = std::move(t); }
            else if (op == "pdec") { auto t = x--; y = std::move(t); }
            else if (op == "add") x += k;
            else if (op == "sub") x -= k;
            else if (op == "plus") y = x + k;
            else if (op == "rplus") y = k + x;
            else if (op == "minus") y = x - k;
            else if (op == "copy") y = x;
            else if (op == "at") r = {(ssize_t)x[k]};
            else if (op == "dist") r = {x - y, y - x};
            else if (op == "cmp") r = {x == y, x != y, x < y, x <= y, x > y, x >= y};
            else if (op == "begin") x = mem.begin();
            else if (op == "walk") { auto t = x; for (ssize_t j = 0; j < k; ++j, ++t) r.push_back((ssize_t)*t); }
            else if (op == "back") { auto t = x; for (ssize_t j = 0; j < k; ++j) { --t; r.push_back((ssize_t)*t); } }
            else _exit(92);
            // positions that can be read are read
            Vec vals;
            for (int j = 0; j < 3; ++j) vals.push_back((read >> j) & 1 ? (ssize_t)*regs[j] : -1);
            return "\"r\":" + js(r) + ",\"vals\":" + js(vals);
        }
        _exit(93);
    }

    void run(const std::vector<std::string>& lines) {
        for (auto& l : lines) {
            In in(l);
            std::string e = in.w(), s;
            try {
                s = "{\"exc\":0," + one(in, e) + "}\n";
            } catch (const std::exception&) {
                s = "{\"exc\":1,\"r\":[]}\n";
            }
            put(s);
        }
    }
};

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    std::vector<std::string> lines;
    std::string line;
    long id = -1;
    int bad = 0;
    while (std::getline(in, line)) {
        if (line.rfind("S ", 0) == 0) { id = std::stol(line.substr(2)); lines.clear(); continue; }
        if (line != "Z") { lines.push_back(line); continue; }
        if (bad > 20) continue;
        int pfd[2];
        if (pipe(pfd)) return 2;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            alarm(30);
            Runner r;
            r.fd = pfd[1];
            r.run(lines);
            _exit(0);
        }
        close(pfd[1]);
        std::string s, t;
        char buf[65536];
        ssize_t k;
        while ((k = read(pfd[0], buf, sizeof buf)) > 0) s.append(buf, k);
        close(pfd[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
        if (WIFEXITED(status) && WEXITSTATUS(status) >= 90 && WEXITSTATUS(status) < 98) return 3;
        if (WIFEXITED(status) && WEXITSTATUS(status)) sig = 1000 + WEXITSTATUS(status);
        bad += sig != 0;
        size_t e = s.rfind('\n');
        s.resize(e == std::string::npos ? 0 : e);
        for (char c : s) t += c == '\n' ? ',' : c;
        fprintf(out, "{\"id\":%ld,\"sig\":%d,\"steps\":[%s]}\n", id, sig, t.c_str());
    }
    fclose(out);
    return 0;
}

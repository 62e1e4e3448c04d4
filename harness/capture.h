// What the library reports on stderr.
#pragma once
#include "pbt.h"

extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

namespace pbt {

struct StderrCapture {
    int saved, fd;
    std::string path = scratch() + "/stderr";
    size_t off = 0;
    StderrCapture() {
        fflush(stderr);
        saved = dup(2);
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<long>(saved)));
        fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
        if (saved < 0 || fd < 0) throw Infra{"stderr"};
        dup2(fd, 2);
    }
    ~StderrCapture() {
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(2l));
        dup2(saved, 2);
        ::close(saved);
        ::close(fd);
    }
    struct Report { size_t no; std::string text; };
    // the reports since the last call
    std::vector<Report> take() {
        std::string all;
        char buf[65536];
        ssize_t n;
        while ((n = pread(fd, buf, sizeof buf, off_t(off))) > 0) { all.append(buf, size_t(n)); off += size_t(n); }
        std::vector<Report> r;
        const std::string mark = "EXCEPTION #";
        size_t at = all.find(mark);
        while (at != std::string::npos) {
            size_t next = all.find(mark, at + mark.size());
            Report x;
            x.no = strtoull(all.c_str() + at + mark.size(), nullptr, 10);
            x.text = all.substr(at, next == std::string::npos ? std::string::npos : next - at);
            r.push_back(x);
            at = next;
        }
        return r;
    }
};

struct Numbers {
    size_t& last;
    static Numbers& get() {
        static size_t n = 0;
        static Numbers x{n};
        return x;
    }
    void in_order(const std::vector<StderrCapture::Report>& r) {
        for (auto& x : r) {
            REQUIRE(x.no == last + 1, "report number %zu follows %zu", x.no, last);
            last = x.no;
        }
    }
    void any_order(const std::vector<StderrCapture::Report>& r) {
        std::set<size_t> s;
        for (auto& x : r) REQUIRE(s.insert(x.no).second, "report number %zu used twice", x.no);
        for (size_t n : s) REQUIRE(n > last, "report number %zu after %zu", n, last);
        for (size_t n : s) { REQUIRE(n == last + 1, "report number %zu after %zu", n, last); last = n; }
    }
};

}   // namespace pbt

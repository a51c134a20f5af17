// Reads scenarios, executes them, and writes one line for each call:
//   <scenario> <call> <observation as json>
#include "vf.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <atomic>
#include <iostream>
#include <clocale>
#include <locale>
#include <thread>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define VF_ASAN
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(VF_ASAN)
#define VF_ASAN
#endif
#ifdef VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vf {

std::map<std::string, Entry>& registry() {
    static std::map<std::string, Entry> r;
    return r;
}

// names of files contain no digits, so that they cannot be taken for numbers
std::string file_path(size_t index) {
    return "data" + std::string(1, static_cast<char>('a' + index)) + ".csv";
}

void write_file(const std::string& path, const std::string& data) {
    static_cast<void>(unlink(path.c_str()));
    FILE* f = std::fopen(path.c_str(), "wb");
    if (!f || std::fwrite(data.data(), 1, data.size(), f) != data.size()) {
        std::perror("scenario file");
        std::exit(3);
    }
    std::fclose(f);
}

// the data are delivered in pieces
Pipe::Pipe(const std::string& path, const std::string& data) {
    // without pipes a file of the same content
    if (!fill(path, data)) {
        write_file(path, data);
    }
}

bool Pipe::fill(const std::string& path, const std::string& data) {
    constexpr size_t pieces = 200;
    int fds[2];
    if (pipe2(fds, O_DIRECT) != 0) {
        return false;
    }
    end_ = fds[0];
    static_cast<void>(fcntl(fds[1], F_SETPIPE_SZ, 1 << 20));
    static_cast<void>(fcntl(fds[1], F_SETFL, O_DIRECT | O_NONBLOCK));
    const size_t n = std::max<size_t>(1, (data.size() + pieces - 1) / pieces);
    bool whole = true;
    for (size_t i = 0; whole && i < data.size(); i += n) {
        const size_t k = std::min(n, data.size() - i);
        whole = write(fds[1], data.data() + i, k) == static_cast<ssize_t>(k);
    }
    close(fds[1]);
    const std::string target = "/proc/self/fd/" + std::to_string(end_);
    static_cast<void>(unlink(path.c_str()));
    if (!whole || symlink(target.c_str(), path.c_str()) != 0) {
        return false;
    }
    const int probe = open(path.c_str(), O_RDONLY | O_NONBLOCK);
    if (probe < 0) {
        return false;
    }
    close(probe);
    return true;
}

Pipe::~Pipe() {
    if (end_ >= 0) {
        close(end_);
    }
}

} // namespace vf

namespace {

// what earlier calls of other code may have left behind in errno
int stale_errno(size_t index) {
    constexpr int left[] = {ENOMEM, 0, ERANGE, EINTR, EINVAL};
    return left[index % std::size(left)];
}

// the C++ locale of the program around the library
struct Punctuation : std::numpunct<char> {
    char do_decimal_point() const override {
        return ',';
    }
    char do_thousands_sep() const override {
        return '.';
    }
    std::string do_grouping() const override {
        return "\3";
    }
    std::string do_truename() const override {
        return "yes";
    }
    std::string do_falsename() const override {
        return "no";
    }
};

// VF_LOCALE may name one with another decimal point for C
void choose_locale(const std::string& id) {
    static const std::locale foreign{std::locale::classic(), new Punctuation};
    size_t sum = 0;
    for (char c : id) {
        sum += static_cast<unsigned char>(c);
    }
    std::locale::global(sum % 2 == 0 ? foreign : std::locale::classic());
    const char* const name = std::getenv("VF_LOCALE");
    if (!std::setlocale(LC_ALL, name && sum / 2 % 2 == 0 ? name : "C")) {
        std::fprintf(stderr, "no locale %s\n", name);
        std::exit(3);
    }
}

size_t heap_in_use() {
#ifdef VF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

int open_files() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) {
            ++n;
        }
        closedir(d);
    }
    return n;
}

void too_long(int) {
    const char msg[] = "scenario takes too long\n";
    static_cast<void>(!write(2, msg, sizeof(msg) - 1));
    _exit(98);
}

struct Resources {
    size_t heap;
    int files;
};

// where observations go
using Sink = std::function<void(const std::string&)>;

void print(const std::string& line) {
    std::fwrite(line.data(), 1, line.size(), stdout);
    std::fflush(stdout);
}

// executes the calls, hands over the observations
void execute(const std::string& id, const std::vector<vf::Op>& ops,
             const Sink& sink) {
    std::vector<std::unique_ptr<vf::Instance>> objects;
    int index = 0;
    for (const auto& op : ops) {
        vf::Seen seen;
        vf::Instance* on = nullptr;
        errno = stale_errno(static_cast<size_t>(index));
        const std::string& what = op.at(0);
        if (what == "new") {
            const auto it = vf::registry().find(op.at(1));
            const bool conv = op.at(2) == "conv";
            if (it == vf::registry().end() ||
                !(conv ? it->second.make_converter : it->second.make_parser)) {
                std::fprintf(stderr, "not compiled in: %s\n",
                             op.at(1).c_str());
                std::exit(3);
            }
            objects.push_back(conv ? it->second.make_converter(op, seen)
                                   : it->second.make_parser(op, seen));
            on = objects.back().get();
        } else {
            auto& object = objects.at(op.num(1) - 1);
            if (what == "assign" || what == "swap") {
                auto& other = objects.at(op.num(2) - 1);
                if (other->type() != object->type()) {
                    std::fprintf(stderr, "assignment of other type\n");
                    std::exit(3);
                }
                if (what == "swap") {
                    object->swap(*other, seen);
                } else {
                    object->assign(*other, seen);
                    other.reset();
                }
                on = object.get();
            } else if (what == "delete") {
                object.reset();
            } else {
                object->run(op, seen);
                on = object.get();
            }
        }
        if (sink) {
            std::string out{id + " " + std::to_string(index) + " {"};
            seen.put_status(out);
            out += ",\"x\":" + seen.x;
            if (on) {
                on->cursor(out);
            } else {
                out += ",\"eof\":0,\"line\":0,\"pos\":0,\"uq\":0";
            }
            sink(out + "}\n");
        }
        ++index;
    }
}

// bytes and files still held after the calls were executed once more
Resources growth(const std::vector<vf::Op>& ops) {
    const Resources before{heap_in_use(), open_files()};
    execute("", ops, {});
    const Resources after{heap_in_use(), open_files()};
    return {after.heap - before.heap, after.files - before.files};
}

// several threads, each with objects of its own and its share of the
// scenarios; they have nothing in common but what the library shares
struct Job {
    std::string id;
    std::vector<vf::Op> ops;
};

void in_threads(const std::vector<std::vector<Job>>& shares) {
    std::vector<std::string> out(shares.size());
    std::vector<std::thread> threads;
    std::atomic<size_t> waiting{shares.size()};
    for (size_t t = 0; t < shares.size(); ++t) {
        threads.emplace_back([&, t] {
            --waiting;
            while (waiting.load() != 0) {
                std::this_thread::yield();
            }
            std::string mine;
            for (const auto& job : shares[t]) {
                execute(job.id, job.ops,
                        [&](const std::string& line) { mine += line; });
            }
            out[t] = std::move(mine);
        });
    }
    for (auto& t : threads) {
        t.join();
    }
    for (const auto& o : out) {
        print(o);
    }
}

} // namespace

int main(int argc, char** argv) {
    if (argc < 2) {
        return 2;
    }
    const size_t n_threads =
        argc > 2 ? static_cast<size_t>(std::atoi(argv[2])) : 0;
    std::vector<std::vector<Job>> shares(n_threads);
    size_t next = 0;
    std::signal(SIGALRM, too_long);
    std::ifstream in(argv[1]);
    std::string line;
    std::string id;
    std::vector<vf::Op> ops;
    bool resources = false;
    while (std::getline(in, line)) {
        vf::Op op;
        size_t b = 0;
        while (b < line.size()) {
            size_t e = line.find(' ', b);
            e = e == std::string::npos ? line.size() : e;
            op.w.push_back(line.substr(b, e - b));
            b = e + 1;
        }
        if (op.w.empty()) {
            continue;
        }
        if (op.at(0) == "scenario") {
            id = op.at(1);
            ops.clear();
            resources = false;
        } else if (op.at(0) == "resources") {
            resources = true;
        } else if (op.at(0) == "end" && n_threads != 0) {
            shares[next++ % n_threads].push_back({id, ops});
        } else if (op.at(0) == "end") {
            alarm(15);
            choose_locale(id);
            execute(id, ops, print);
            if (resources) {
                // the first execution may have filled caches of the runtime
                const auto g1 = growth(ops);
                const auto g2 = growth(ops);
                const bool heap = g1.heap != 0 && g2.heap != 0;
                const bool files = g1.files != 0 && g2.files != 0;
                std::printf("%s %zu {\"st\":\"ok\",\"valid\":1,\"msg\":[],"
                            "\"vals\":[],\"x\":[%d,%d],\"eof\":0,\"line\":0,"
                            "\"pos\":0,\"uq\":0}\n",
                            id.c_str(), ops.size(), heap ? 1 : 0,
                            files ? 1 : 0);
                std::fflush(stdout);
            }
            alarm(0);
        } else {
            ops.push_back(std::move(op));
        }
    }
    if (n_threads != 0) {
        alarm(300);
        in_threads(shares);
    }
    std::printf("done\n");
    return 0;
}

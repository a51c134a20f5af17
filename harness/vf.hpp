// Conformance harness: executes scenarios (sequences of public calls on
// parsers and converters) and reports what a caller observes.
#pragma once
#if defined(VF_SINGLE)
#include VF_SINGLE
#else
#include <ss/converter.hpp>
#include <ss/parser.hpp>
#endif
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace vf {

////////////////
// user types
////////////////

enum class shape { none, circle, square, sq };

struct even {
    bool ss_valid(const int& v) const {
        return v % 2 == 0;
    }
    const char* error() const {
        return "odd number";
    }
};

struct short_text {
    bool ss_valid(const std::string& s) const {
        return s.size() <= 3;
    }
};

// class with a tied method
template <typename... Ts>
struct Tied {
    std::tuple<Ts...> members{};
    Tied() = default;
    Tied(Ts... ts) : members{std::move(ts)...} {
    }
    auto tied() {
        return std::apply([](auto&... x) { return std::tie(x...); }, members);
    }
};

// class with a constructor
template <typename... Ts>
struct Obj {
    std::tuple<Ts...> members{};
    Obj() = default;
    Obj(Ts... ts) : members{std::move(ts)...} {
    }
};

} // namespace vf

namespace ss {
template <>
inline bool extract(const char* begin, const char* end, vf::shape& value) {
    const std::string_view s{begin, static_cast<size_t>(end - begin)};
    if (s == "circle") {
        value = vf::shape::circle;
    } else if (s == "square") {
        value = vf::shape::square;
    } else if (s == "sq") {
        value = vf::shape::sq;
    } else {
        return false;
    }
    return true;
}
} // namespace ss

namespace vf {

////////////////
// output
////////////////

using Values = std::vector<std::string>;

inline void put_bytes(std::string& out, std::string_view s) {
    out += '[';
    bool first = true;
    for (const char c : s) {
        if (!first) {
            out += ',';
        }
        first = false;
        out += std::to_string(static_cast<unsigned>(
            static_cast<unsigned char>(c)));
    }
    out += ']';
}

inline void put_list(std::string& out, const Values& vs) {
    out += '[';
    for (size_t i = 0; i < vs.size(); ++i) {
        if (i) {
            out += ',';
        }
        put_bytes(out, vs[i]);
    }
    out += ']';
}

// what a caller observes of one call
struct Seen {
    bool thrown{false};
    bool foreign{false}; // thrown, but not ss::exception
    bool stale{false};   // views do not show what they did before
    std::vector<std::pair<std::string_view, std::string>> views;
    bool valid{true};
    std::string msg;
    Values vals;
    std::string x{"[]"};

    void put_status(std::string& out) const {
        out += "\"st\":";
        out += foreign ? "\"foreign\"" : stale ? "\"stale\"" : thrown ? "\"exc\"" : "\"ok\"";
        out += ",\"valid\":";
        out += valid ? '1' : '0';
        out += ",\"msg\":";
        put_bytes(out, msg);
        out += ",\"vals\":";
        put_list(out, vals);
    }
};

////////////////
// values
////////////////

template <typename T>
struct is_optional : std::false_type {};
template <typename T>
struct is_optional<std::optional<T>> : std::true_type {};
template <typename T>
struct is_variant : std::false_type {};
template <typename... Ts>
struct is_variant<std::variant<Ts...>> : std::true_type {};
template <typename T>
struct is_tuple : std::false_type {};
template <typename... Ts>
struct is_tuple<std::tuple<Ts...>> : std::true_type {};
template <typename T>
struct is_class_of_ours : std::false_type {};
template <typename... Ts>
struct is_class_of_ours<Tied<Ts...>> : std::true_type {};
template <typename... Ts>
struct is_class_of_ours<Obj<Ts...>> : std::true_type {};

template <typename I>
std::string decimal(I v) {
    using U = std::make_unsigned_t<I>;
    const bool neg = v < 0;
    U u = neg ? static_cast<U>(0) - static_cast<U>(v) : static_cast<U>(v);
    std::string s;
    do {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u = static_cast<U>(u / 10);
    } while (u != 0);
    return neg ? "-" + s : s;
}

inline std::string plain_decimal(long double v) {
    // glibc prints the exact value
    static thread_local char buff[20000];
    std::snprintf(buff, sizeof(buff), "%.1200Lf", v);
    std::string s{buff};
    std::replace(s.begin(), s.end(), ',', '.'); // C locale of the scenario
    s.erase(s.find_last_not_of('0') + 1);
    if (!s.empty() && s.back() == '.') {
        s.pop_back();
    }
    return s;
}

// the interval of reals that round to the value, see FloatMatches
template <typename F>
std::string interval(F v) {
    if (std::isnan(v) || std::isinf(v)) {
        return "+;1;0;0";
    }
    const bool neg = std::signbit(v);
    const F a = std::fabs(v);
    const F next = std::nextafter(a, std::numeric_limits<F>::infinity());
    const F prev = std::nextafter(a, static_cast<F>(0));
    const long double la = a;
    const long double up = std::isinf(next)
                               ? (la - static_cast<long double>(prev)) / 2
                               : (static_cast<long double>(next) - la) / 2;
    const long double down = (la - static_cast<long double>(prev)) / 2;
    int exponent = 0;
    const F m = std::frexp(a, &exponent);
    // even if the last bit of the mantissa is not set
    const int min_exp = std::numeric_limits<F>::min_exponent;
    const int digits = std::numeric_limits<F>::digits;
    const int shift = exponent < min_exp ? digits - (min_exp - exponent)
                                         : digits;
    const auto mant = static_cast<unsigned long long>(
        std::ldexp(static_cast<long double>(m), shift));
    const bool inclusive = a == 0 || mant % 2 == 0;
    return std::string{neg ? "-;" : "+;"} +
           (a == 0 ? "0" : plain_decimal(la - down)) + ";" +
           plain_decimal(la + up) + ";" + (inclusive ? "1" : "0");
}

template <typename T>
std::string enc(const T& v) {
    if constexpr (std::is_same_v<T, bool>) {
        return v ? "1" : "0";
    } else if constexpr (std::is_same_v<T, char> ||
                         std::is_same_v<T, signed char> ||
                         std::is_same_v<T, unsigned char>) {
        return std::string(1, static_cast<char>(v));
    } else if constexpr (std::is_integral_v<T>) {
        return decimal(v);
    } else if constexpr (std::is_same_v<T, ss::int8>) {
        return decimal(static_cast<int>(static_cast<int8_t>(v)));
    } else if constexpr (std::is_same_v<T, ss::uint8>) {
        return decimal(static_cast<int>(static_cast<uint8_t>(v)));
    } else if constexpr (std::is_floating_point_v<T>) {
        return interval(v);
    } else if constexpr (std::is_same_v<T, std::string> ||
                         std::is_same_v<T, std::string_view>) {
        return std::string{v};
    } else if constexpr (std::is_same_v<T, shape>) {
        switch (v) {
        case shape::circle:
            return "circle";
        case shape::square:
            return "square";
        case shape::sq:
            return "sq";
        default:
            return "";
        }
    } else if constexpr (is_optional<T>::value) {
        return v ? "+" + enc(*v) : "-";
    } else {
        static_assert(is_variant<T>::value);
        return std::to_string(v.index()) + ":" +
               std::visit([](const auto& x) { return enc(x); }, v);
    }
}

template <typename T>
Values enc_all(const T& v) {
    if constexpr (is_tuple<T>::value) {
        return std::apply(
            [](const auto&... x) { return Values{enc(x)...}; }, v);
    } else if constexpr (is_class_of_ours<T>::value) {
        return enc_all(v.members);
    } else {
        return Values{enc(v)};
    }
}

// views, and what they showed at first
using Views = std::vector<std::pair<std::string_view, std::string>>;

template <typename T>
void keep_views(Views& views, const T& v) {
    if constexpr (is_tuple<T>::value) {
        std::apply([&](const auto&... x) { (keep_views(views, x), ...); }, v);
    } else if constexpr (std::is_same_v<T, std::string_view>) {
        views.emplace_back(v, std::string{v});
    } else {
        static_cast<void>(views);
    }
}

////////////////
// lists of types
////////////////

template <typename... Ts>
struct Plain {
    template <typename P>
    static auto get(P& p) {
        return p.template get_next<Ts...>();
    }
    template <typename P>
    static auto iterate(P& p) {
        return p.template iterate<Ts...>();
    }
    template <typename P, typename... Fun>
    static auto first(P& p, Fun&&... fun) {
        return p.template try_next<Ts...>(std::forward<Fun>(fun)...);
    }
    template <typename C, typename... Fun>
    static auto other(C& c, Fun&&... fun) {
        return c.template or_else<Ts...>(std::forward<Fun>(fun)...);
    }
    template <typename C, typename... As>
    static auto convert(C& c, As&&... as) {
        return c.template convert<Ts...>(std::forward<As>(as)...);
    }
};

template <typename T, typename... Ts>
struct Object {
    template <typename P>
    static auto get(P& p) {
        return p.template get_object<T, Ts...>();
    }
    template <typename P>
    static auto iterate(P& p) {
        return p.template iterate_object<T, Ts...>();
    }
    template <typename P, typename... Fun>
    static auto first(P& p, Fun&&... fun) {
        return p.template try_object<T, Ts...>(std::forward<Fun>(fun)...);
    }
    template <typename C, typename... Fun>
    static auto other(C& c, Fun&&... fun) {
        return c.template or_object<T, Ts...>(std::forward<Fun>(fun)...);
    }
    template <typename C, typename... As>
    static auto convert(C& c, As&&... as) {
        return c.template convert_object<T, Ts...>(std::forward<As>(as)...);
    }
};

////////////////
// scenario input
////////////////

struct Op {
    std::vector<std::string> w; // words of the line

    const std::string& at(size_t i) const {
        return w.at(i);
    }
    int num(size_t i) const {
        return std::stoi(w.at(i));
    }
    std::string text(size_t i) const {
        return unhex(w.at(i));
    }
    std::vector<std::string> texts(size_t i) const {
        std::vector<std::string> r;
        const std::string& s = w.at(i);
        if (s == "~") { // the empty list
            return r;
        }
        size_t b = 0;
        while (true) {
            const size_t e = s.find(',', b);
            r.push_back(unhex(s.substr(
                b, e == std::string::npos ? std::string::npos : e - b)));
            if (e == std::string::npos) {
                return r;
            }
            b = e + 1;
        }
    }
    static std::string unhex(const std::string& s) {
        std::string r;
        if (s == "-") {
            return r;
        }
        const auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t i = 0; i + 1 < s.size(); i += 2) {
            r += static_cast<char>(d(s[i]) * 16 + d(s[i + 1]));
        }
        return r;
    }
};

struct Instance {
    virtual ~Instance() = default;
    virtual void run(const Op& op, Seen& seen) = 0;
    virtual void assign(Instance&, Seen& seen) = 0;
    virtual void swap(Instance&, Seen&) {
        std::exit(3);
    }
    virtual void cursor(std::string& out) = 0;
    virtual const void* type() const = 0;
};

// a heap block of exactly the given size, so that reading past it is noticed
struct Block {
    std::unique_ptr<char[]> data;
    size_t size;
    explicit Block(const std::string& s)
        : data{new char[s.size()]}, size{s.size()} {
        std::copy(s.begin(), s.end(), data.get());
    }
};

using Factory = std::function<std::unique_ptr<Instance>(const Op&, Seen&)>;

struct Entry {
    Factory make_parser;
    Factory make_converter;
};

std::map<std::string, Entry>& registry();

std::string file_path(size_t index);
void write_file(const std::string& path, const std::string& data);

// a path from which the data can be read once
class Pipe {
public:
    Pipe(const std::string& path, const std::string& data);
    ~Pipe();
    Pipe(const Pipe&) = delete;
    Pipe& operator=(const Pipe&) = delete;

private:
    bool fill(const std::string& path, const std::string& data);

    int end_{-1};
};

template <typename Options>
struct SetupOf;

template <typename... Options>
struct SetupOf<std::tuple<Options...>> {
    using parser = ss::parser<Options...>;
    using converter = ss::converter<Options...>;
    using setup = ss::setup<Options...>;
};

// runs f and notes how it ended
template <typename F>
void guarded(Seen& seen, F&& f) {
    try {
        f();
    } catch (const ss::exception& e) {
        seen.thrown = true;
        seen.msg = e.what();
        seen.vals.clear();
    } catch (...) {
        seen.foreign = true;
    }
}

template <typename S, typename X>
void note_validity(Seen& seen, const X& x) {
    seen.valid = x.valid();
    if constexpr (S::setup::string_error) {
        if (!seen.thrown) {
            seen.msg = x.error_msg();
        }
    }
}

} // namespace vf

// Parser and converter of one setup, for some groups of lists of types.
#pragma once
#include "vf.hpp"
#include "catalog.hpp"
#include <algorithm>

namespace vf {

////////////////
// callbacks of chains
////////////////

struct Round {
    bool has{false};
    Values vals;
    bool ran{false};
    bool hasarg{false};
    Values arg;
    bool err{false};

    void put(std::string& out) const {
        out += "{\"has\":";
        out += has ? '1' : '0';
        out += ",\"vals\":";
        put_list(out, vals);
        out += ",\"ran\":";
        out += ran ? '1' : '0';
        out += ",\"hasarg\":";
        out += hasarg ? '1' : '0';
        out += ",\"arg\":";
        put_list(out, arg);
        out += ",\"err\":";
        out += err ? '1' : '0';
        out += '}';
    }
};

// a callback which ran more than once is reported as a wrong argument
inline void ran_once(Round& r) {
    if (r.ran) {
        r.hasarg = true;
        r.arg = {"ran", "twice"};
    }
    r.ran = true;
}

// things that can be interpreted as true or false
struct Verdict {
    bool value;
    operator bool() const {
        return value;
    }
};

inline int verdict_int(bool b) {
    return b ? 2 : 0;
}

template <typename Tuple>
struct Spread;

template <typename... Ts>
struct Spread<std::tuple<Ts...>> {
    template <typename Ret, bool ByValue>
    static auto make(Round& r, bool result) {
        return [&r, result](
                   std::conditional_t<ByValue, Ts, const Ts&>... xs) -> Ret {
            ran_once(r);
            if (!r.hasarg) {
                r.arg = Values{enc(xs)...};
                r.hasarg = true;
            }
            if constexpr (!std::is_void_v<Ret>) {
                return verdict_int(result);
            } else {
                static_cast<void>(result);
            }
        };
    }
};

enum class Cb { none, zv, ob, av, zb, ov, ab };

inline constexpr Cb cb_kind(int variant, size_t i) {
    return static_cast<Cb>((static_cast<size_t>(variant) + 3 * i) % 7);
}

// callbacks take values or references to them
inline constexpr bool cb_by_value(int variant, size_t i) {
    return (static_cast<size_t>(variant) + i) % 2 == 0;
}

template <Cb K, bool ByValue, typename Value>
auto make_callback(Round& r, bool result) {
    static_cast<void>(result);
    if constexpr (K == Cb::zv) {
        // can be moved, not copied
        return [&r, own = std::make_unique<int>(0)] { ran_once(r); };
    } else if constexpr (K == Cb::zb) {
        return [&r, result] {
            ran_once(r);
            return verdict_int(result);
        };
    } else if constexpr ((K == Cb::av || K == Cb::ab) &&
                         is_tuple<Value>::value) {
        return Spread<Value>::template make<
            std::conditional_t<K == Cb::ab, int, void>, ByValue>(
            r, result);
    } else if constexpr (K == Cb::ov || K == Cb::av) {
        return [&r](std::conditional_t<ByValue, Value, const Value&> v) {
            ran_once(r);
            if (!r.hasarg) {
                r.arg = enc_all(v);
                r.hasarg = true;
            }
        };
    } else {
        return [&r, result](
                   std::conditional_t<ByValue, Value, const Value&> v) {
            ran_once(r);
            if (!r.hasarg) {
                r.arg = enc_all(v);
                r.hasarg = true;
            }
            return std::conditional_t<ByValue, bool, Verdict>{result};
        };
    }
}

////////////////
// parser
////////////////

template <typename S>
class ParserInstance : public Instance {
public:
    using P = typename S::parser;
    constexpr static bool string_error = S::setup::string_error;
    constexpr static bool throwing = S::setup::throw_on_error;
    constexpr static bool has_header = !S::setup::ignore_header;

    // new <key> <src> <delim> <data> <index>
    ParserInstance(const Op& op, Seen& seen) {
        const std::string src = op.at(2);
        const std::string delim = op.text(3);
        guarded(seen, [&] {
            if (src == "file") {
                const std::string path = file_path(op.num(5));
                write_file(path, op.text(4));
                parser_ = std::make_unique<P>(path, delim);
            } else if (src == "pipe") {
                const std::string path = file_path(op.num(5));
                const Pipe pipe{path, op.text(4)};
                parser_ = std::make_unique<P>(path, delim);
            } else if (src == "missing") {
                parser_ = std::make_unique<P>("no/such/file", delim);
            } else if (src == "null") {
                parser_ = std::make_unique<P>(nullptr, 10, delim);
            } else {
                block_ = std::make_shared<Block>(op.text(4));
                parser_ = std::make_unique<P>(block_->data.get(), block_->size,
                                              delim);
            }
        });
        note(seen);
    }

    void note(Seen& seen) {
        if (parser_) {
            note_validity<S>(seen, *parser_);
        }
    }

    const void* type() const override {
        static char id;
        return &id;
    }

    void assign(Instance& other, Seen& seen) override {
        auto& o = static_cast<ParserInstance&>(other);
        views_.clear();
        if (!parser_) {
            parser_ = std::make_unique<P>(std::move(*o.parser_));
        } else {
            *parser_ = std::move(*o.parser_);
        }
        o.parser_.reset();
        block_ = o.block_;
        note(seen);
    }

    void swap(Instance& other, Seen& seen) override {
        auto& o = static_cast<ParserInstance&>(other);
        views_.clear();
        o.views_.clear();
        std::swap(*parser_, *o.parser_);
        std::swap(block_, o.block_);
        note(seen);
    }

    void cursor(std::string& out) override {
        if (!parser_) {
            out += ",\"eof\":0,\"line\":0,\"pos\":0,\"uq\":0";
            return;
        }
        out += ",\"eof\":";
        out += parser_->eof() ? '1' : '0';
        out += ",\"line\":" + std::to_string(parser_->line());
        out += ",\"pos\":" + std::to_string(parser_->position());
        out += ",\"uq\":0";
    }

    void run(const Op& op, Seen& seen) override {
        const std::string& what = op.at(0);
        P& p = *parser_;
        if (what != "query" && what != "raw" && what != "hdr" &&
            what != "fexists") {
            // views are promised until the next read
            views_.clear();
        }
        if (what == "get") {
            lookup(gets(), op.at(2))(p, seen);
            views_ = std::move(seen.views);
        } else if (what == "loop") {
            lookup(loops(), op.at(2))(p, op.num(3), op.num(4), seen, nullptr);
        } else if (what == "chain") {
            if constexpr (!throwing) {
                lookup(chains(), op.at(2) + "/" + op.at(3))(p, op, seen);
            }
        } else if (what == "take") {
            lookup(gets(), op.at(2))(p, seen);
            seen.vals.clear();
        } else if (what == "loopwith") {
            lookup(loops(), op.at(2))(
                p, op.num(3), with_body, seen,
                op.at(4) == "-" ? nullptr : lookup(gets(), op.at(4)));
        } else if (what == "drain") {
            int reads = 0;
            const int most = op.num(3);
            size_t before = p.position();
            bool forward = true;
            while (!p.eof() && reads < most) {
                Seen one;
                lookup(gets(), op.at(2))(p, one);
                ++reads;
                forward = forward && p.position() > before;
                before = p.position();
            }
            seen.x = "[" + std::to_string(p.eof() && forward ? 1 : 0) + "," +
                     std::to_string(reads) + "]";
        } else if (what == "ignore") {
            guarded(seen,
                    [&] { seen.x = p.ignore_next() ? "[1]" : "[0]"; });
        } else if (what == "move") {
            auto moved = std::make_unique<P>(std::move(p));
            parser_ = std::move(moved);
        } else if (what == "query") {
        } else if constexpr (has_header) {
            if (what == "raw") {
                guarded(seen, [&] { seen.vals = {p.raw_header()}; });
            } else if (what == "hdr") {
                guarded(seen, [&] { seen.vals = p.header(); });
            } else if (what == "fexists") {
                guarded(seen, [&] {
                    seen.x = p.field_exists(op.text(2)) ? "[1]" : "[0]";
                });
            } else if (what == "use") {
                const auto f = op.texts(2);
                guarded(seen, [&] {
                    switch (f.size()) {
                    case 0:
                        return p.use_fields();
                    case 1:
                        return use(p, f, std::make_index_sequence<1>{});
                    case 2:
                        return use(p, f, std::make_index_sequence<2>{});
                    case 3:
                        return use(p, f, std::make_index_sequence<3>{});
                    case 4:
                        return use(p, f, std::make_index_sequence<4>{});
                    case 5:
                        return use(p, f, std::make_index_sequence<5>{});
                    case 6:
                        return use(p, f, std::make_index_sequence<6>{});
                    case 12:
                        return use(p, f, std::make_index_sequence<12>{});
                    case 36:
                        return use(p, f, std::make_index_sequence<36>{});
                    default:
                        std::fprintf(stderr, "so many fields: %zu\n", f.size());
                        std::exit(3);
                    }
                });
            }
        }
        note(seen);
        for (const auto& [view, text] : views_) {
            seen.stale = seen.stale || view != text;
        }
    }

private:
    template <size_t... I>
    static void use(P& p, const std::vector<std::string>& f,
                    std::index_sequence<I...>) {
        p.use_fields(f[I]...);
    }

    using Get = void (*)(P&, Seen&);
    using LoopFun = void (*)(P&, int, int, Seen&, Get);
    using ChainFun = void (*)(P&, const Op&, Seen&);

    template <typename M>
    static typename M::mapped_type lookup(const M& m, const std::string& key) {
        const auto it = m.find(key);
        if (it == m.end()) {
            std::fprintf(stderr, "not compiled in: %s\n", key.c_str());
            std::exit(3);
        }
        return it->second;
    }

    template <typename L>
    static void get(P& p, Seen& seen) {
        guarded(seen, [&] {
            const auto v = L::get(p);
            // views have to outlive queries
            static_cast<void>(p.eof());
            static_cast<void>(p.line());
            static_cast<void>(p.position());
            static_cast<void>(p.valid());
            if constexpr (has_header) {
                static_cast<void>(p.raw_header());
            }
            seen.vals = enc_all(v);
            keep_views(seen.views, v);
        });
    }

    static constexpr int with_body = -1;

    // a loop of at most n rounds, style: how it is written, body: the read
    // in each round (none: a row is ignored)
    template <typename L>
    static void loop(P& p, int n, int style, Seen& seen, Get body) {
        std::string out;
        // one round, returns true to go on
        const auto round = [&](const auto& v) {
            Seen one;
            one.vals = enc_all(v);
            note_validity<S>(one, p);
            out += out.empty() ? "{" : ",{";
            one.put_status(out);
            out += '}';
            return --n != 0;
        };
        guarded(seen, [&] {
            if (n == 0) {
                return;
            }
            if (style == 0) {
                for (const auto& v : L::iterate(p)) {
                    if (!round(v)) {
                        break;
                    }
                }
            } else if (style == with_body) {
                for (const auto& v : L::iterate(p)) {
                    if (!round(v)) {
                        break;
                    }
                    if (!body) {
                        static_cast<void>(p.ignore_next());
                        continue;
                    }
                    Seen one;
                    body(p, one);
                    if (one.thrown || one.foreign) {
                        seen.thrown = one.thrown;
                        seen.foreign = one.foreign;
                        seen.msg = one.msg;
                        break;
                    }
                    note_validity<S>(one, p);
                    out += ",{";
                    one.put_status(out);
                    out += '}';
                }
            } else if (style == 1) {
                auto range = L::iterate(p);
                const auto end = range.end();
                for (auto it = range.begin(); it != end; it++) {
                    if (!round(*it)) {
                        break;
                    }
                }
            } else if (style == 2) {
                // a new range for each round
                while (true) {
                    auto range = L::iterate(p);
                    auto it = range.begin();
                    if (it == range.end() || !round(*it.operator->())) {
                        break;
                    }
                }
            } else if (style == 4) {
                // one range, begun again and again
                auto range = L::iterate(p);
                while (true) {
                    auto it = range.begin();
                    if (it == range.end() || !round(*it)) {
                        break;
                    }
                }
            } else if (style == 5) {
                // what is stepped over keeps its value; not for views
                auto range = L::iterate(p);
                for (auto it = range.begin(); it != range.end();) {
                    const auto before = enc_all(*it);
                    if (!round(*it)) {
                        break;
                    }
                    const auto copy = it;
                    auto old = it++;
                    auto same = copy;
                    seen.stale = seen.stale || enc_all(*old) != before ||
                                 enc_all(*same) != before;
                }
            } else {
                // a copy of the value outlives the loop round
                for (auto v : L::iterate(p)) {
                    const auto copy = std::move(v);
                    if (!round(copy)) {
                        break;
                    }
                }
            }
        });
        seen.x = "[" + out + "]";
    }

    template <size_t I, typename Comp>
    static void finish(Comp&& comp, std::vector<Round>& rounds, size_t index,
                       const std::string& oes) {
        const bool wanted = oes[index] == '1';
        if constexpr (string_error) {
            if (index % 2 == 0) {
                comp.on_error([&](const std::string& s) {
                    rounds[index].err = wanted && !s.empty();
                });
                return;
            }
        }
        comp.on_error([&] { rounds[index].err = wanted; });
    }

    template <int Variant, size_t I, typename Comp>
    static void rest(P&, Comp& comp, std::vector<Round>& rounds,
                     const std::string&, const std::string& oes) {
        static_cast<void>(oes);
        const auto values = comp.values();
        size_t i = 0;
        const auto take = [&](const auto& v) {
            if (v) {
                rounds[i].has = true;
                rounds[i].vals = enc_all(*v);
            }
            ++i;
        };
        std::apply([&](const auto&... v) { (take(v), ...); }, values);
    }

    template <int Variant, size_t I, typename Comp, typename L, typename... Ls>
    static void rest(P& p, Comp& comp, std::vector<Round>& rounds,
                     const std::string& results, const std::string& oes) {
        const auto next = [&] {
            if constexpr (Variant < 0 || cb_kind(Variant, I) == Cb::none) {
                return L::other(comp);
            } else {
                using Value = std::decay_t<decltype(L::get(p))>;
                return L::other(
                    comp,
                    make_callback<cb_kind(Variant, I),
                                  cb_by_value(Variant, I), Value>(
                        rounds[I], results[I] == '1'));
            }
        };
        auto c = next();
        finish<I>(c, rounds, I, oes);
        rest<Variant, I + 1, decltype(c), Ls...>(p, c, rounds, results, oes);
    }

    // chain <inst> <name> <variant> <results> <on_errors>
    template <int Variant, typename L, typename... Ls>
    static void chain(P& p, const Op& op, Seen& seen) {
        std::vector<Round> rounds(1 + sizeof...(Ls));
        const std::string& results = op.at(4);
        const std::string& oes = op.at(5);
        guarded(seen, [&] {
            const auto start = [&] {
                if constexpr (Variant < 0 || cb_kind(Variant, 0) == Cb::none) {
                    return L::first(p);
                } else {
                    using Value = std::decay_t<decltype(L::get(p))>;
                    return L::first(
                        p, make_callback<cb_kind(Variant, 0),
                                         cb_by_value(Variant, 0), Value>(
                               rounds[0], results[0] == '1'));
                }
            };
            auto c = start();
            finish<0>(c, rounds, 0, oes);
            rest<Variant, 1, decltype(c), Ls...>(p, c, rounds, results, oes);
        });
        seen.x = "[";
        for (size_t i = 0; i < rounds.size(); ++i) {
            if (i) {
                seen.x += ',';
            }
            rounds[i].put(seen.x);
        }
        seen.x += ']';
    }

    static const std::map<std::string, Get>& gets() {
        static const std::map<std::string, Get> m{
#define X(n) {#n, &ParserInstance::template get<L_##n>},
            VF_LISTS(X)
#undef X
        };
        return m;
    }

    static const std::map<std::string, LoopFun>& loops() {
        static const std::map<std::string, LoopFun> m{
#define X(n) {#n, &ParserInstance::template loop<L_##n>},
            VF_LOOPS(X)
#undef X
        };
        return m;
    }

    static const std::map<std::string, ChainFun>& chains() {
        static const auto all = [] {
            std::map<std::string, ChainFun> m;
            if constexpr (!throwing) {
#define X(n, ...)                                                             \
    m[#n "/-1"] = &ParserInstance::template chain<-1, __VA_ARGS__>;
                VF_PROBES(X)
#undef X
#define X(n, ...)                                                             \
    m[#n "/0"] = &ParserInstance::template chain<0, __VA_ARGS__>;             \
    m[#n "/1"] = &ParserInstance::template chain<1, __VA_ARGS__>;             \
    m[#n "/2"] = &ParserInstance::template chain<2, __VA_ARGS__>;             \
    m[#n "/3"] = &ParserInstance::template chain<3, __VA_ARGS__>;             \
    m[#n "/4"] = &ParserInstance::template chain<4, __VA_ARGS__>;             \
    m[#n "/5"] = &ParserInstance::template chain<5, __VA_ARGS__>;             \
    m[#n "/6"] = &ParserInstance::template chain<6, __VA_ARGS__>;
                VF_CHAINS(X)
#undef X
            }
            return m;
        }();
        return all;
    }

    std::shared_ptr<Block> block_;
    Views views_;
    std::unique_ptr<P> parser_;
};

////////////////
// converter
////////////////

template <typename S>
class ConverterInstance : public Instance {
public:
    using C = typename S::converter;

    ConverterInstance(const Op&, Seen& seen) {
        note(seen);
    }

    void note(Seen& seen) {
        note_validity<S>(seen, converter_);
    }

    const void* type() const override {
        static char id;
        return &id;
    }

    void assign(Instance& other, Seen& seen) override {
        auto& o = static_cast<ConverterInstance&>(other);
        converter_ = std::move(o.converter_);
        lines_ = std::move(o.lines_);
        place_ = std::move(o.place_);
        note(seen);
    }

    void cursor(std::string& out) override {
        out += ",\"eof\":0,\"line\":0,\"pos\":0,\"uq\":";
        out += converter_.unterminated_quote() ? '1' : '0';
    }

    void run(const Op& op, Seen& seen) override {
        const std::string& what = op.at(0);
        if (what == "conv") {
            char* line = line_of(op.text(3));
            lookup(convs(), op.at(2))(converter_, line, op.text(4), seen);
        } else if (what == "split") {
            char* line = line_of(op.text(2));
            const std::string delim = op.text(3);
            guarded(seen, [&] {
                for (const auto& [b, e] : converter_.split(line, delim)) {
                    seen.vals.emplace_back(b, e);
                }
            });
        } else if (what == "convlast") {
            lookup(lasts(), op.at(2))(converter_, seen);
        } else if (what == "convfields") {
            ss::split_data data;
            for (const auto& f : op.texts(3)) {
                const char* b = keep(f);
                data.emplace_back(b, b + f.size());
            }
            lookup(fields(), op.at(2))(converter_, data, seen);
        }
        note(seen);
    }

private:
    using Conv = void (*)(C&, char*, const std::string&, Seen&);
    using LastFun = void (*)(C&, Seen&);
    using FieldsFun = void (*)(C&, const ss::split_data&, Seen&);

    template <typename M>
    static typename M::mapped_type lookup(const M& m, const std::string& key) {
        const auto it = m.find(key);
        if (it == m.end()) {
            std::fprintf(stderr, "not compiled in: %s\n", key.c_str());
            std::exit(3);
        }
        return it->second;
    }

    // a copy of the line which lives as long as the converter
    char* keep(const std::string& s) {
        lines_.push_back(std::make_unique<Block>(s + '\0'));
        return lines_.back()->data.get();
    }

    // every other pair of lines is put into the same place
    char* line_of(const std::string& s) {
        if (s.size() >= place_.size() || count_++ / 2 % 2 != 0) {
            return keep(s);
        }
        std::copy_n(s.c_str(), s.size() + 1, place_.data());
        return place_.data();
    }

    template <typename L>
    static void conv(C& c, char* line, const std::string& delim, Seen& seen) {
        guarded(seen, [&] {
            const auto v = L::convert(c, line, delim);
            seen.vals = enc_all(v);
        });
    }

    template <typename L>
    static void last(C& c, Seen& seen) {
        guarded(seen, [&] {
            const auto v = L::convert(c);
            seen.vals = enc_all(v);
        });
    }

    template <typename L>
    static void from(C& c, const ss::split_data& data, Seen& seen) {
        guarded(seen, [&] {
            const auto v = L::convert(c, data);
            seen.vals = enc_all(v);
        });
    }

    static const std::map<std::string, Conv>& convs() {
        static const std::map<std::string, Conv> m{
#define X(n) {#n, &ConverterInstance::template conv<L_##n>},
            VF_LISTS(X)
#undef X
        };
        return m;
    }

    static const std::map<std::string, LastFun>& lasts() {
        static const std::map<std::string, LastFun> m{
#define X(n) {#n, &ConverterInstance::template last<L_##n>},
            VF_LISTS(X)
#undef X
        };
        return m;
    }

    static const std::map<std::string, FieldsFun>& fields() {
        static const std::map<std::string, FieldsFun> m{
#define X(n) {#n, &ConverterInstance::template from<L_##n>},
            VF_LISTS(X)
#undef X
        };
        return m;
    }

    C converter_;
    std::vector<std::unique_ptr<Block>> lines_;
    std::vector<char> place_ = std::vector<char>(256);
    size_t count_{0};
};

template <typename S>
bool register_setup(const char* key) {
    registry()[key] = Entry{
#ifdef VF_PARSER
        [](const Op& op, Seen& seen) -> std::unique_ptr<Instance> {
            return std::make_unique<ParserInstance<S>>(op, seen);
        },
#else
        nullptr,
#endif
#ifdef VF_CONVERTER
        [](const Op& op, Seen& seen) -> std::unique_ptr<Instance> {
            return std::make_unique<ConverterInstance<S>>(op, seen);
        }
#else
        nullptr
#endif
    };
    return true;
}

} // namespace vf

#define VF_REGISTER(key, ...)                                                  \
    static const bool registered_ =                                            \
        vf::register_setup<vf::SetupOf<std::tuple<__VA_ARGS__>>>(key);

#include "harness.hpp"
#include "inputs.hpp"
#include <atomic>
#include <cctype>
#include <csignal>
#include <fcntl.h>
#include <set>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace vf
{
    namespace
    {
        Ctx g_ctx;
        GuardState g_guard;
        std::unordered_map<int, int> g_viol;
        std::unordered_set<std::uint64_t> g_outcomes;
        std::vector<std::string> g_extra;

        // Crash record: preformatted so that the handler only writes bytes
        char g_case[8192];
        std::atomic<std::size_t> g_case_len{0};   // read by the signal handlers, possibly on another thread
        int g_crash_fd = -1;
        std::atomic<std::uint64_t> g_case_serial{0};
        std::atomic<std::uint64_t> g_seen_serial{0};
        std::atomic<int> g_seen_ticks{0};
        int g_hang_ticks = 20;
        unsigned char g_altstack[65536];

        void json_str(std::string &o, std::string_view s)
        {
            o += '"';
            for (unsigned char c : s)
            {
                char b[8];
                if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
                else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
                else o += static_cast<char>(c);
            }
            o += '"';
        }

        std::string hex(std::string_view s)
        {
            static char const d[] = "0123456789abcdef";
            std::string o;
            for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
            return o;
        }

        void emit(std::string const &line)
        {
            std::fputs(line.c_str(), g_ctx.out);
            std::fputc('\n', g_ctx.out);
            std::fflush(g_ctx.out);
        }

        void crash(char const *kind)
        {
            char buf[64];
            auto put = [](char const *s, std::size_t n) { if (write(g_crash_fd, s, n) < 0) {} };
            int n = std::snprintf(buf, sizeof buf, "{\"type\":\"crash\",\"kind\":\"%s\",", kind);
            put(buf, static_cast<std::size_t>(n));
            if (g_case_len) put(g_case, g_case_len);
            else put("\"id\":-1}\n", 9);
        }

        void on_signal(int sig)
        {
            crash(sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGNAL");
            _exit(42);
        }

        // CPU time, not wall time: a case is a hang only when it burns this much processor time itself
        void on_tick(int)
        {
            if (g_seen_serial == g_case_serial && g_case_len)
            {
                g_seen_ticks = g_seen_ticks + 1;
                if (g_seen_ticks >= g_hang_ticks) { crash("HANG"); _exit(43); }
            }
            else
            {
                g_seen_serial = g_case_serial.load();
                g_seen_ticks = 0;
            }
        }
    }

    Ctx &ctx() { return g_ctx; }
    GuardState &guard() { return g_guard; }
    std::vector<std::string> &extra_inputs() { return g_extra; }
    CaseOpts &next_opts() { static CaseOpts o; return o; }
    std::string rep(std::string_view s, std::size_t n) { std::string o; o.reserve(s.size() * n); while (n--) o += s; return o; }

    std::vector<std::string> all_bytes() { std::vector<std::string> v; for (int c = 0; c < 256; ++c) v.emplace_back(1, static_cast<char>(c)); return v; }

    void still_alive() { g_case_serial.fetch_add(1, std::memory_order_relaxed); }

    void guard_runaway() { crash("RUNAWAY"); _exit(44); }

    std::string quote(std::string_view s) { std::string o; json_str(o, s); return o; }

    void set_case(int id, char const *what, std::string_view pattern, unsigned flags, std::string_view input)
    {
        g_case_len = 0;
        std::string s = "\"id\":" + std::to_string(id) + ",\"what\":\"" + what + "\",\"flags\":" + std::to_string(flags) + ",\"pattern\":\"" + hex(pattern) + "\",\"input_len\":" + std::to_string(input.size()) + ",\"input\":\"" + hex(input.substr(0, 1500)) + "\"}\n";
        std::size_t n = std::min(s.size(), sizeof g_case);
        std::memcpy(g_case, s.data(), n);
        ++g_case_serial;
        g_case_len = n;
    }

    bool too_many(int id) { auto it = g_viol.find(id); return it != g_viol.end() && it->second >= 4; }

    void violation(int id, char const *monitor, char const *what, std::string_view pattern, unsigned flags,
                   std::string_view input, std::string const &expected, std::string const &observed)
    {
        ++g_ctx.violations;
        if (++g_viol[id] > 4) return;
        std::string s = "{\"type\":\"violation\",\"id\":" + std::to_string(id) + ",\"monitor\":\"" + monitor + "\",\"what\":" + quote(what) + ",\"flags\":" + std::to_string(flags) +
                        ",\"pattern\":\"" + hex(pattern) + "\",\"input\":\"" + hex(input.substr(0, 4096)) + "\",\"expected\":" + quote(expected.substr(0, 2000)) + ",\"observed\":" + quote(observed.substr(0, 2000)) + "}";
        emit(s);
    }

    void note_outcome(int id, std::string_view what, std::string_view input, std::string const &obs)
    {
        std::uint64_t h = 1469598103934665603ull;
        auto mix = [&](std::string_view s) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= 0xff; h *= 1099511628211ull; };
        h ^= static_cast<std::uint64_t>(id) * 0x9E3779B97F4A7C15ull;
        mix(what); mix(input); mix(obs);
        if (g_outcomes.insert(h).second) ++g_ctx.nontrivial;
    }

    namespace
    {
        std::string span(ref::Span const &s) { return s.empty() ? (s.b < 0 ? std::string("-") : "@" + std::to_string(s.b)) : "[" + std::to_string(s.b) + "," + std::to_string(s.e) + ")"; }
    }

    std::string show(ref::Result const &r)
    {
        if (!r.matched) return "no match";
        std::string s = "match";
        for (std::size_t k = 0; k < r.g.size(); ++k) s += " " + std::to_string(k) + "=" + (k && r.g[k].empty() ? std::string("-") : span(r.g[k]));
        return s;
    }

    std::string show(Obs const &o)
    {
        std::string s = o.matched ? "match" : "no match";
        for (std::size_t k = 0; k < o.g.size(); ++k)
            if (o.matched || !o.g[k].empty()) s += " " + std::to_string(k) + "=" + span(o.g[k]);
        return s;
    }

    template<typename T>
    static std::string show_list(std::vector<T> const &v)
    {
        std::string s = std::to_string(v.size()) + " results";
        for (std::size_t k = 0; k < v.size() && k < 12; ++k) s += "; " + show(v[k]);
        return s;
    }
    std::string show(std::vector<ref::Result> const &v) { return show_list(v); }
    std::string show(std::vector<Obs> const &v) { return show_list(v); }

    bool same(ref::Result const &e, Obs const &o)
    {
        if (e.matched != o.matched || e.g.size() != o.g.size()) return false;
        for (std::size_t k = 0; k < e.g.size(); ++k)
        {
            if (!e.matched) { if (!o.g[k].empty()) return false; continue; }
            if (k == 0) { if (e.g[0].b != o.g[0].b || e.g[0].e != o.g[0].e) return false; continue; }
            if (e.g[k].empty() != o.g[k].empty()) return false;
            if (!e.g[k].empty() && (e.g[k].b != o.g[k].b || e.g[k].e != o.g[k].e)) return false;
        }
        return true;
    }

    Expected expect(ref::Regex const &re, std::string_view in, unsigned methods)
    {
        Expected e;
        re.max_steps = g_ctx.max_steps;
        g_case_len = 0;
        try
        {
            if (methods & MATCH) e.match = re.match(in);
            if (methods & PREFIX) e.prefix = re.prefix(in);
            if (methods & SEARCH) e.search = re.search(in);
            if (methods & FIND_ALL) e.all = re.find_all(in);
            if (methods & TOKENIZE) e.tokens = re.tokenize(in);
            e.ok = true;
        }
        catch (ref::StepLimit const &) {}
        return e;
    }

    void Judge::begin_case(char const *method) const
    {
        char buf[96];
        std::snprintf(buf, sizeof buf, "%s over %s", method, kind);
        set_case(id, buf, pattern, flags, input);
        g_guard.error[0] = 0;
    }

    void Judge::guard_check(char const *method) const
    {
        if (g_guard.error[0])
        {
            char buf[96];
            std::snprintf(buf, sizeof buf, "%s over %s", method, kind);
            violation(id, "iterator-guard", buf, pattern, flags, input, "iterator operations stay inside the input range", g_guard.error);
            g_guard.error[0] = 0;
        }
    }

    void add_group(Obs &o, bool known, std::ptrdiff_t begin, std::size_t length)
    {
        ref::Span s;
        if (known) { s.b = begin; s.e = begin + static_cast<std::ptrdiff_t>(length); }
        o.g.push_back(s);
    }

    bool is_blank(Obs const &o)
    {
        if (o.matched) return false;
        for (auto const &g : o.g) if (!g.empty()) return false;
        return true;
    }

    void drive(int id, char const *pattern, std::size_t len, unsigned flags, unsigned methods, Runner run)
    {
        std::string_view p{pattern, len};
        ref::Regex re{p, flags};
        ++ctx().patterns;
        CaseOpts const opts = next_opts();
        next_opts() = {};
        std::size_t const default_steps = ctx().max_steps;
        if (opts.max_steps) ctx().max_steps = opts.max_steps;
        struct Restore { std::size_t v; ~Restore() { ctx().max_steps = v; } } restore{default_steps};
        if (!re.parsed().ok || re.parsed().hard)
        {
            violation(id, "harness", "reference rejects a generated pattern", p, flags, "", "accept", "reject");
            return;
        }
        std::mt19937 rng{static_cast<std::uint32_t>(ctx().seed * 2654435761u + static_cast<std::uint32_t>(id) * 40503u + 17u)};
        std::vector<std::string> inputs;
        if (ctx().replay) inputs = {ctx().replay_input};
        else
        {
            inputs = extra_inputs();
            extra_inputs().clear();
            auto more = make_inputs(re, p, rng, opts.budget ? opts.budget : ctx().budget);
            inputs.insert(inputs.end(), more.begin(), more.end());
        }
        std::size_t expensive = 0;
        for (auto const &in : inputs)
        {
            auto e = expect(re, in, methods);
            if (!e.ok)
            {
                ++ctx().skipped;
                if (++expensive > 20) break;
                continue;
            }
            Judge j{id, p, flags, in, ""};
            run(j, e, in);
            g_case_len = 0;
            if (too_many(id)) break;
        }
    }

    void Judge::one(char const *method, ref::Result const &e, Obs const &o) const
    {
        guard_check(method);
        ++g_ctx.evals;
        ++g_ctx.results;
        ++(o.matched ? g_ctx.matched : g_ctx.nonmatched);
        for (std::size_t k = 1; k < o.g.size(); ++k) g_ctx.groups_set += !o.g[k].empty();
        if (o.matched && !o.g[0].empty()) note_outcome(id, method, input, show(o));
        if (!same(e, o))
        {
            char buf[96];
            std::snprintf(buf, sizeof buf, "%s over %s", method, kind);
            violation(id, "reference", buf, pattern, flags, input, show(e), show(o));
        }
        else if (o.matched && input.size() > 2 && (g_ctx.evals % 97) == 5)
            g_ctx.note_sample(std::string(method) + " " + quote(pattern) + " flags=" + std::to_string(flags) + " on " + quote(input) + ": " + show(o));
    }

    void Judge::many(char const *method, std::vector<ref::Result> const &e, std::vector<Obs> const &o, bool exhausted_ok) const
    {
        ++g_ctx.evals;
        g_ctx.results += o.size();
        ++(o.empty() ? g_ctx.nonmatched : g_ctx.matched);
        if (!o.empty()) note_outcome(id, method, input, show(o));
        bool ok = e.size() == o.size() && exhausted_ok;
        for (std::size_t k = 0; ok && k < e.size(); ++k) ok = same(e[k], o[k]);
        if (!ok)
        {
            char buf[96];
            std::snprintf(buf, sizeof buf, "%s over %s", method, kind);
            violation(id, "reference", buf, pattern, flags, input, show(e) + ", then exhausted for good", show(o) + (exhausted_ok ? "" : ", not exhausted for good"));
        }
        else if (o.size() > 2 && (g_ctx.evals % 89) == 7)
            g_ctx.note_sample(std::string(method) + " " + quote(pattern) + " flags=" + std::to_string(flags) + " on " + quote(input) + ": " + show(o));
    }
}

static std::string unhex(char const *s)
{
    std::string o;
    for (; s[0] && s[1]; s += 2) { char b[3] = {s[0], s[1], 0}; o += static_cast<char>(std::strtol(b, nullptr, 16)); }
    return o;
}

int main(int argc, char **argv)
{
    using namespace vf;
    // usage: prog OUT seed budget max_steps hang_seconds [replay-input-hex]
    if (argc < 6) return 2;
    ctx().out = std::fopen(argv[1], "w");
    if (!ctx().out) return 2;
    g_crash_fd = open((std::string(argv[1]) + ".crash").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    ctx().seed = std::strtoull(argv[2], nullptr, 10);
    ctx().budget = std::strtoull(argv[3], nullptr, 10);
    ctx().max_steps = std::strtoull(argv[4], nullptr, 10);
    g_hang_ticks = std::atoi(argv[5]);
    if (argc > 6) { ctx().replay = true; ctx().replay_input = unhex(argv[6]); }

    stack_t ss{};
    ss.ss_sp = g_altstack;
    ss.ss_size = sizeof g_altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    itimerval tv{{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);

    run_all();

    auto &c = ctx();
    c.guard_events = guard().events;
    std::string s = "{\"type\":\"stats\",\"patterns\":" + std::to_string(c.patterns) + ",\"evals\":" + std::to_string(c.evals) + ",\"matched\":" + std::to_string(c.matched) +
                    ",\"nonmatched\":" + std::to_string(c.nonmatched) + ",\"skipped\":" + std::to_string(c.skipped) + ",\"groups_set\":" + std::to_string(c.groups_set) +
                    ",\"results\":" + std::to_string(c.results) + ",\"guard_events\":" + std::to_string(c.guard_events) + ",\"nontrivial\":" + std::to_string(c.nontrivial) +
                    ",\"violations\":" + std::to_string(c.violations) + ",\"samples\":[";
    for (std::size_t k = 0; k < c.samples.size(); ++k) { if (k) s += ","; s += quote(c.samples[k]); }
    s += "]}";
    emit(s);
    std::fclose(c.out);
    return 0;
}

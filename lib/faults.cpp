// Running out of memory at every single allocation: owning operations throw std::bad_alloc, leave what they
// were called on as it was, and give the right answer when there is memory again.
#include "harness.hpp"
#include <cstdlib>
#include <new>
#include <optional>

namespace
{
    thread_local bool armed = false;
    thread_local std::size_t left = 0, made = 0;

    void *take(std::size_t n)
    {
        if (armed)
        {
            ++made;
            if (left != 0 && --left == 0) throw std::bad_alloc();
        }
        void *p = std::malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }

    struct Arm
    {
        explicit Arm(std::size_t fail) { left = fail; made = 0; armed = true; }
        ~Arm() { armed = false; }
    };
}

void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

namespace
{
    template<typename Result>
    std::string tale(Result const &res)
    {
        std::string s = res.matched() ? "yes" : "no";
        res.for_each_group([&](auto const &g) { s += "|" + vf::text_of(g); });
        return s;
    }
    template<typename Result>
    std::string tale(std::optional<Result> const &res) { return res ? "some " + tale(*res) : "none"; }
    inline std::string tale(std::string const &s) { return s; }
    inline std::string tale(std::string_view s) { return std::string(s); }

    char const *pattern = "";
    std::string in;

    void fail(char const *what, std::string const &want, std::string const &seen) { vf::violation(-1, "out-of-memory", what, pattern, 0, in, want, seen); }

    // prepare() makes the state, use(state) is the operation, look(state) describes the state
    template<typename Prepare, typename Use, typename Look>
    void every_allocation(char const *what, std::string const &want, Prepare prepare, Use use, Look look)
    {
        vf::set_case(-1, what, pattern, 0, in);
        for (std::size_t k = 0; k < 60; ++k)
        {
            auto state = prepare();
            std::string const before = look(state);
            bool thrown = false;
            std::size_t allocations = 0;
            try
            {
                std::optional<std::remove_cvref_t<decltype(use(state))>> res;
                {
                    Arm a(k);
                    res.emplace(use(state));
                    allocations = made;
                }
                std::string const seen = tale(*res);
                if (seen != want) fail(what, want, seen);
            }
            catch (std::bad_alloc const &)
            {
                allocations = made;
                thrown = true;
                if (k == 0) fail(what, "a result", "bad_alloc without reason");
            }
            ++vf::ctx().evals;
            vf::ctx().results += allocations;
            if (thrown)
            {
                ++vf::ctx().nonmatched;
                vf::note_outcome(-3, what, std::string(pattern) + in, "allocation " + std::to_string(k) + " failed");
                if (std::string const after = look(state); after != before) fail(what, "unchanged: " + before, after);
                std::string const again = tale(use(state));
                if (again != want) fail(what, "once there is memory: " + want, again);
            }
            else if (k != 0 && allocations < k) break;
        }
    }

    template<typename R>
    void regex(char const *p, std::initializer_list<std::string> inputs)
    {
        pattern = p;
        for (auto const &text : inputs)
        {
            in = text;
            auto nothing = [](auto const &) { return std::string(); };
            auto const view = R::search(std::string_view(in));
            auto const want = tale(view);
            auto owner = [&](char const *what, auto container) {
                using C = decltype(container);
                auto fresh = [&] { return C(in.begin(), in.end()); };
                every_allocation((std::string("search of an expiring ") + what).c_str(), want, fresh, [](C &x) { return R::search(std::move(x)); }, [](C const &x) { return std::string(x.begin(), x.end()); });
                every_allocation((std::string("match of an expiring ") + what).c_str(), tale(R::match(std::string_view(in))), fresh, [](C &x) { return R::match(std::move(x)); }, [](C const &x) { return std::string(x.begin(), x.end()); });
                every_allocation((std::string("match_prefix of an expiring ") + what).c_str(), tale(R::match_prefix(std::string_view(in))), fresh, [](C &x) { return R::match_prefix(std::move(x)); }, [](C const &x) { return std::string(x.begin(), x.end()); });
                C const x(in.begin(), in.end());
                every_allocation((std::string("owned copy of a result over ") + what).c_str(), want, [&] { return R::search(x.begin(), x.end()); }, [](auto &r) { return r.as_memory_owner(); }, [](auto const &r) { return tale(r); });
                every_allocation((std::string("content of a group over ") + what).c_str(), vf::text_of(view.template group<0>()), [&] { return R::search(x.begin(), x.end()); }, [](auto &r) { return r.template group<0>().content(); }, [](auto const &r) { return tale(r); });
                every_allocation((std::string("owned copies of iterated results over ") + what).c_str(), want, [&] { return R::searcher(x.begin(), x.end()); }, [](auto g) { return g().as_memory_owner(); }, nothing);
            };
            owner("string", std::string());
            owner("list", std::list<char>());
            owner("forward_list", std::forward_list<char>());
            owner("deque", std::deque<char>());
            owner("vector", std::vector<char>());
            auto own = [&] { return view.as_memory_owner(); };
            auto look = [](auto const &r) { return tale(r); };
            using Own = decltype(own());
            auto const some = view.matched() ? "some " + want : "none";
            every_allocation("copy of an owned result", want, own, [](Own &r) { return Own(r); }, look);
            every_allocation("assignment of an owned result", want, own, [](Own &r) { Own x; x = r; return x; }, look);
            every_allocation("as_optional of an owned result", some, own, [](Own &r) { return r.as_optional(); }, look);
            every_allocation("as_optional of a const owned result", some, own, [](Own &r) { return std::as_const(r).as_optional(); }, look);
            every_allocation("as_optional of a const expiring owned result", some, own, [](Own &r) { return std::move(std::as_const(r)).as_optional(); }, look);
            every_allocation("as_optional of an expiring owned result", some, own, [](Own &r) { return std::move(r).as_optional(); }, look);
            every_allocation("moved owned result", want, own, [](Own &r) { return Own(std::move(r)); }, look);
            every_allocation("text of a group of an owned result", vf::text_of(view.template group<0>()), own, [](Own &r) { return std::string(std::as_const(r).template group<0>().content()); }, look);
            every_allocation("as_optional of a view", some, [&] { return view; }, [](auto &r) { return r.as_optional(); }, look);
            every_allocation("transform_groups", vf::text_of(view.template group<0>()), own, [](Own &r) { return std::get<0>(r.transform_groups([](auto const &g) { return vf::text_of(g); })); }, look);
        }
    }
}

void vf::run_all()
{
    std::string const l(40, 'x'), m(70, 'y');
    regex<meta::regex<"x+">>("x+", {l, m, "", "x" + m});
    regex<meta::regex<"(x+)(y+)">>("(x+)(y+)", {l + m, m + l + m, "xy", l, "x" + m});
    regex<meta::regex<"(?<n>x+)(?:(y+)|(z+))*(?<m>w)?">>("(?<n>x+)(?:(y+)|(z+))*(?<m>w)?", {l + m + "w", l + m + std::string(33, 'z') + "yw", "y", ""});
    regex<meta::regex<"(?=(.*))(.)+\\1|(y*)">>("(?=(.*))(.)+\\1|(y*)", {m, l, l + m});
}

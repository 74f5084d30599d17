// mc-sources: esl/data/channel.cpp esl/data/output_base.cpp
// mc-instrument: thread
// mc-extra: mc/sched.cpp
// mc-libs: -ldl -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset
// C33: every short sequence of messages of every severity and place, and every interleaving (up to the preemption bound) of
// threads that log, on the real log and channel; the text kept is compared with that of the messages.
#include <esl/data/log.hpp>
#include <sched.hpp>
#include <thread>
using namespace esl::data;

template<severity filter> struct book: esl::data::log<filter>
{
    book(): esl::data::log<filter>("book") {}
    std::string text() const { return this->buffer_.str(); }
    std::string hidden() const { return this->null_.good() ? "" : "failed"; }
};

// a value that is written in parts
struct parts { std::string s; };
static std::ostream &operator<<(std::ostream &o, const parts &p)
{
    bool first = true;
    for(char ch: p.s) { if(!first) sched::point("part"); first = false; o.put(ch); }
    return o;
}

struct place { const char *file; unsigned line; const char *shown; };
static const std::vector<place> places{{nullptr, 0, nullptr}, {"/home/a/esl/data/log.cpp", 7, "data/log.cpp"}, {"esl/agent.cpp", 4294967295u, "agent.cpp"}, {"/x/esl/y/esl/z.cpp", 0, "z.cpp"},
                                       {"/x/model.cpp", 12, "model.cpp"}, {"model.cpp", 1, "model.cpp"}, {"/x/noesl.d/b.cpp", 3, "b.cpp"}, {"", 9, ""}};
static const char *names[] = {"trace", "notice", "warning", "error"};

template<typename channel_t> std::string pieces(mc::ctx &c, channel_t &&ch, int most)
{
    std::string text; int n = c.choose(most + 1);
    for(int i = 0; i < n; ++i) switch(c.choose(8)) {
    case 0: ch << 42; text += "42"; break;
    case 1: ch << "text"; text += "text"; break;
    case 2: ch << std::string("a,b\"c"); text += "a,b\"c"; break;
    case 3: ch << ' '; text += ' '; break;
    case 4: ch << std::endl; text += '\n'; break;
    case 5: ch << channel::endl; text += '\n'; break;
    case 6: { const uint64_t big = ~0ull; ch << big << ';'; text += "18446744073709551615;"; } break;
    case 7: ch << std::string() << trace; text += "trace"; break;
    }
    return text;
}

template<severity filter, severity level> std::string message(mc::ctx &c, book<filter> &b, int most)
{
    auto &p = c.pick(places);
    std::string before = b.text(), head = std::string("(") + names[level] + (p.file ? std::string(", ") + p.shown + "[" + std::to_string(p.line) + "]" : "") + ") ";
    auto ch = b.template get<level>("function", p.file, p.line);
    std::string t = pieces(c, ch, most);
    MC_CHECK(c, ch.level == level, "level", ch.level);
    std::string due = level < filter ? std::string() : head + t, is = b.text();
    MC_LOG(c, names[level] << " in a log of " << names[filter] << ": " << t);
    MC_CHECK(c, is == before + due, level < filter ? "filtered message kept" : "message", "the log is [" << is << "], should be [" << before << due << "]");
    MC_CHECK(c, b.hidden().empty(), "filtered stream", "");
    return due;
}

template<severity filter> void sequence(mc::ctx &c, int depth, int most)
{
    book<filter> b; std::string all;
    int n = 1 + c.choose(depth);
    for(int i = 0; i < n; ++i) {
        switch(c.choose(5)) {
        case 0: all += message<filter, trace>(c, b, most); break;
        case 1: all += message<filter, notice>(c, b, most); break;
        case 2: all += message<filter, warning>(c, b, most); break;
        case 3: all += message<filter, errorlog>(c, b, most); break;
        case 4: {
            // the severity is known when the program runs; only the message itself is given
            severity l = severity(c.choose(4)); std::string before = b.text();
            auto ch = b.get(l); std::string t = pieces(c, ch, most), is = b.text();
            std::string added = is.substr(std::min(before.size(), is.size()));
            MC_CHECK(c, is.compare(0, before.size(), before) == 0 && (l < filter ? added.empty() : added.size() >= t.size() && added.compare(added.size() - t.size(), t.size(), t) == 0), "message at run time", "added [" << added << "] for [" << t << "]");
            all += added;
        } break;
        }
        c.op();
        MC_CHECK(c, b.text() == all, "log", "is [" << b.text() << "], should be [" << all << "]");
        c.state(MC_STR(filter << b.text()));
    }
}

// the pieces of the text in order, if each was written whole
static bool whole(const std::string &text, const std::vector<std::vector<std::string>> &threads)
{
    std::vector<std::vector<size_t>> todo{std::vector<size_t>(threads.size(), 0)};
    std::set<std::vector<size_t>> seen;
    while(todo.size()) {
        auto at = todo.back(); todo.pop_back();
        if(!seen.insert(at).second) continue;
        size_t pos = 0; bool done = true;
        for(size_t i = 0; i < threads.size(); ++i) { for(size_t k = 0; k < at[i]; ++k) pos += threads[i][k].size(); if(at[i] < threads[i].size()) done = false; }
        if(done) return pos == text.size();
        for(size_t i = 0; i < threads.size(); ++i) if(at[i] < threads[i].size() && text.compare(pos, threads[i][at[i]].size(), threads[i][at[i]]) == 0) { auto n = at; ++n[i]; todo.push_back(n); }
    }
    return false;
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C33");
    int depth = r.bound(2, 2), most = r.bound(1, 2);
    r.scope("messages in a log of everything", [=](mc::ctx &c) { sequence<trace>(c, depth, most); });
    r.scope("messages in a log of notices", [=](mc::ctx &c) { sequence<notice>(c, depth, most); });
    r.scope("messages in a log of warnings", [=](mc::ctx &c) { sequence<warning>(c, depth, most); });
    r.scope("messages in a log of errors", [=](mc::ctx &c) { sequence<errorlog>(c, depth, most); });
    r.scope("long messages", [=](mc::ctx &c) { book<warning> b; if(c.flip()) message<warning, errorlog>(c, b, r.bound(4, 5)); else message<warning, trace>(c, b, 3); c.op(); c.state(b.text()); });
    for(int threads: {2, 3}) r.scope(MC_STR(threads << " threads that log"), [=](mc::ctx &c) {
        sched::options o; o.preemptions = threads == 2 ? r.bound(3, 4) : r.bound(1, 2);
        std::vector<int> kind; for(int i = 0; i < threads; ++i) kind.push_back(c.choose(3));
        auto b = std::make_shared<book<warning>>();
        std::vector<std::vector<std::string>> due(threads);
        for(int i = 0; i < threads; ++i) {
            std::string n(1, 'a' + i);
            // the severity may be written in parts, what the thread writes not
            if(kind[i] < 2) for(char ch: std::string(kind[i] ? "(error) " : "(warning) ")) due[i].push_back(std::string(1, ch));
            for(auto &s: kind[i] == 0 ? std::vector<std::string>{n + n + "1", "42", "\n"} : kind[i] == 1 ? std::vector<std::string>{n + "2" + n, "\n"} : std::vector<std::string>{}) due[i].push_back(s);
        }
        c.op();
        sched::run(c, o, [&] {
            std::vector<std::thread> t;
            for(int i = 0; i < threads; ++i) t.emplace_back([&, i] {
                std::string n(1, 'a' + i);
                if(kind[i] == 0) b->template get<warning>() << parts{n + n + "1"} << 42 << std::endl;
                else if(kind[i] == 1) b->template get<errorlog>() << parts{n + "2" + n} << channel::endl;
                else b->template get<notice>() << parts{n + n} << std::endl;
            });
            for(auto &x: t) x.join();
        });
        std::string text = b->text();
        MC_CHECK(c, whole(text, due), "torn message", "[" << text << "]");
        MC_CHECK(c, b->hidden().empty(), "filtered stream", "");
        c.state(text);
    });
    return r.finish();
}

// Messenger scenarios ("msg"): messages over the in-process queues, over real
// TCP connections, and over a byte stream cut into given segments (the bytes
// are the ones the implementation's own Send produced).
#include "common.h"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <mutex>
#include <random>
#include <sys/socket.h>
#include <thread>
#include "common/TCP.h"
#include "common/threads_messenger.h"

// Short reads and writes on sockets of a scenario: the sizes the calls may
// transfer at most, 0 = no limit.
static std::atomic<size_t> g_maxread{0}, g_maxsend{0};
static std::atomic<int> g_fds[64];
static bool Watched(int fd) { return fd >= 0 && fd < 64 && g_fds[fd].load(); }
#define NEXT(name) reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))
static size_t Cut(std::atomic<size_t>& lim, size_t n) {
    size_t l = lim.load();
    if (!l || n <= 1) return n;
    static thread_local std::minstd_rand rng{std::random_device{}()};
    size_t k = 1 + rng() % l;
    return k < n ? k : n;
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
    static auto f = NEXT(read);
    return f(fd, b, Watched(fd) ? Cut(g_maxread, n) : n);
}
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) {
    static auto f = NEXT(recv);
    return f(fd, b, Watched(fd) && !(fl & MSG_WAITALL) ? Cut(g_maxread, n) : n, fl);
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) {
    static auto f = NEXT(send);
    return f(fd, b, Watched(fd) ? Cut(g_maxsend, n) : n, fl);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    static auto f = NEXT(write);
    return f(fd, b, Watched(fd) ? Cut(g_maxsend, n) : n);
}

// Wake-ups of waiting threads that nobody asked for, and pauses before taking
// a lock: both may happen at any time in any run.
static std::atomic<int> g_spurious{0}, g_jitter{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    using F = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static F f = reinterpret_cast<F>(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));
    if (g_spurious > 0 && g_spurious-- > 0) {
        pthread_mutex_unlock(m);
        usleep(100);
        pthread_mutex_lock(m);
        return 0;
    }
    return f(c, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = NEXT(pthread_mutex_lock);
    if (g_jitter) {
        static thread_local std::minstd_rand rng{static_cast<unsigned>(reinterpret_cast<uintptr_t>(&m) >> 8)};
        if (rng() % 3 == 0) usleep(rng() % static_cast<unsigned>(g_jitter.load()));
    }
    return f(m);
}

static std::mutex g_log;
static void Log(const std::string& s) { std::lock_guard l(g_log); Emit(s); }

// A message is given as "hex <bytes>" or "gen <length> <seed>".
static std::string Message(const std::string& spec) {
    auto t = Split(spec);
    if (t.size() > 1 && t[0] == "hex") return UnHex(t[1]);
    if (t.size() > 2 && t[0] == "gen") {
        std::string r;
        uint64_t x = std::stoull(t[2]) * 2654435761u + 12345;
        for (size_t i = 0, n = std::stoul(t[1]); i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += static_cast<char>(x >> 56); }
        return r;
    }
    return "";
}
static std::string Name(const std::string& m) {   // what the trace says about a message
    if (m.size() <= 40) return "h" + Hex(m);
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : m) { h ^= c; h *= 1099511628211ull; }
    return "n" + std::to_string(m.size()) + "." + std::to_string(h);
}
static void Nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

struct Step { char k; int arg; };
// "s<i>" send message i, "r" receive, "w<us>" wait, "c" close
static std::vector<Step> Script(const std::string& s) {
    std::vector<Step> r;
    for (auto& t : Split(s)) r.push_back({t[0], t.size() > 1 ? std::stoi(t.substr(1)) : 0});
    return r;
}
// Side `me` sends in direction `me`, receives in the other one.
static void Play(Messenger& m, char me, const std::vector<Step>& script, const std::vector<std::string>& msgs, const std::function<void()>& close) {
    char from = me == 'a' ? 'b' : 'a';
    for (auto& st : script) {
        if (st.k == 'w') Nap(st.arg);
        else if (st.k == 's') {
            Log(std::string("s ") + me + " " + Name(msgs.at(st.arg)));
            m.Send(msgs.at(st.arg));
        } else if (st.k == 'r') {
            try {
                auto x = m.Receive();
                if (x) Log(std::string("R ") + from + " " + Name(*x));
                else { Log(std::string("E ") + from); }
            } catch (const std::exception& e) { Log(std::string("T ") + from + " " + Escape(e.what())); }
        } else if (st.k == 'c') { Log(std::string("C ") + me); close(); }
    }
}
static int Feed(int fd, const std::string& b, size_t from, size_t to) {
    static auto f = NEXT(write);
    while (from < to) { auto n = f(fd, b.data() + from, to - from); if (n <= 0) return -1; from += static_cast<size_t>(n); }
    return 0;
}
// The stream Send produces for the messages, with the end offset of each.
static std::string Capture(const std::vector<std::string>& msgs, std::vector<size_t>& ends) {
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(97);
    std::string bytes;
    std::atomic<size_t> total{0};
    static auto rd = NEXT(read);
    g_fds[p[0]] = 1;
    for (auto& m : msgs) {
        std::atomic<bool> done{false};
        std::thread t([&] { TCP::Send(p[0], m); done = true; });
        char buf[65536];
        while (true) {
            ssize_t n = recv(p[1], buf, sizeof buf, MSG_DONTWAIT);
            if (n > 0) { bytes.append(buf, static_cast<size_t>(n)); continue; }
            if (done) { n = recv(p[1], buf, sizeof buf, MSG_DONTWAIT); if (n > 0) { bytes.append(buf, static_cast<size_t>(n)); continue; } break; }
            Nap(50);
        }
        t.join();
        ends.push_back(bytes.size());
    }
    g_fds[p[0]] = 0;
    close(p[0]); close(p[1]);
    return bytes;
}

void RunMsg(const Scenario& s) {
    std::string kind = s.get("kind");
    std::vector<std::string> msgs;
    for (auto& m : s.all("m")) msgs.push_back(Message(m));
    g_maxread = std::stoul(s.get("maxread", "0"));
    g_maxsend = std::stoul(s.get("maxsend", "0"));
    g_spurious = std::stoi(s.get("spurious", "0"));
    g_jitter = std::stoi(s.get("jitter", "0"));
    auto sa = Script(s.get("a")), sb = Script(s.get("b"));
    if (kind == "thread" || kind == "owner") {
        auto own = std::make_unique<ThreadMessengerOwner>();
        ThreadQueue<std::string> q1, q2;
        std::unique_ptr<Messenger> a, b;
        if (kind == "owner") {
            b = std::make_unique<ThreadMessenger>(own->GetOutQueue(), own->GetInQueue());
            a = std::move(own);
        } else {
            a = std::make_unique<ThreadMessenger>(q1, q2);
            b = std::make_unique<ThreadMessenger>(q2, q1);
        }
        std::thread t([&] { Play(*b, 'b', sb, msgs, [] {}); });
        Play(*a, 'a', sa, msgs, [] {});
        t.join();
        g_spurious = g_jitter = 0;
    } else if (kind == "tcp") {
        int port = 20000 + static_cast<int>((static_cast<unsigned>(getpid()) * 131u + std::stoul(s.get("n", "0")) * 17u) % 30000u);
        std::unique_ptr<TCP::TCPServer> srv;
        std::unique_ptr<TCP::TCPClient> cli;
        for (int tries = 0; ; ++tries, ++port) {
            if (tries > 50) { Emit("noport"); return; }
            srv = std::make_unique<TCP::TCPServer>(port);
            cli = std::make_unique<TCP::TCPClient>(port);
            std::atomic<int> st{0};
            std::thread t([&] { try { srv->Initialize(); st = 1; } catch (...) { st = 2; } });
            bool ok = false;
            for (int k = 0; k < 2000 && !ok && st != 2; ++k) {
                try { cli->Initialize(); ok = true; } catch (const TCP::TCPError&) { cli = std::make_unique<TCP::TCPClient>(port); Nap(500); }
            }
            if (!ok && st != 2) { Emit("noport"); _exit(0); }
            t.join();
            if (ok && st == 1) break;
        }
        for (int i = 3; i < 64; ++i) { struct sockaddr_storage a; socklen_t l = sizeof a; if (!getsockname(i, reinterpret_cast<sockaddr*>(&a), &l)) g_fds[i] = 1; }
        std::thread t([&] { Play(*srv, 'b', sb, msgs, [&] { srv.reset(); }); });
        Play(*cli, 'a', sa, msgs, [&] { cli.reset(); });
        t.join();
        for (auto& f : g_fds) f = 0;
    } else if (kind == "stream") {
        // cuts: offsets in permille of the stream or relative to a message's end ("e<i>+<k>"), at which to pause
        std::vector<size_t> ends;
        std::string bytes = Capture(msgs, ends);
        std::vector<size_t> cuts;
        size_t stop = bytes.size();
        auto at = [&](const std::string& t) -> size_t {
            long v;
            if (t[0] == 'e') {
                auto c = t.find_first_of("+-");
                size_t i = std::stoul(t.substr(1, c - 1));
                v = static_cast<long>(i == 0 ? 0 : ends.at(i - 1)) + std::stol(t.substr(c));
            } else v = static_cast<long>(bytes.size() * std::stoul(t) / 1000);
            return static_cast<size_t>(std::max(0l, std::min(v, static_cast<long>(bytes.size()))));
        };
        for (auto& t : Split(s.get("cuts"))) cuts.push_back(at(t));
        if (!s.get("stop").empty()) stop = at(s.get("stop"));
        cuts.push_back(stop);
        std::sort(cuts.begin(), cuts.end());
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(97);
        g_fds[p[1]] = 1;
        size_t whole = 0;
        while (whole < ends.size() && ends[whole] <= stop) ++whole;
        bool mid = stop > (whole ? ends[whole - 1] : 0);
        int naps = std::stoi(s.get("nap", "300"));
        std::thread t([&] {
            while (true) {
                try {
                    auto x = TCP::Receive(p[1]);
                    if (!x) { Log("E a"); break; }
                    Log("R a " + Name(*x));
                } catch (const std::exception& e) { Log(std::string("T a ") + Escape(e.what())); break; }
            }
        });
        size_t pos = 0, next = 0;
        for (size_t c : cuts) {
            if (c < pos || c > stop) continue;
            for (; next < ends.size() && ends[next] <= c; ++next) Log("s a " + Name(msgs[next]));
            if (Feed(p[0], bytes, pos, c)) break;
            pos = c;
            Nap(naps);
        }
        Log(std::string(mid ? "P a" : "C a"));
        close(p[0]);
        t.join();
        g_fds[p[1]] = 0;
        close(p[1]);
    }
}

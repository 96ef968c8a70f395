// Driver: worker processes, failure capture, replay, shrinking, evidence.
#include "vp.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VP_ASAN 1
#    endif
#elif defined(__SANITIZE_ADDRESS__)
#    define VP_ASAN 1
#endif
#ifdef VP_ASAN
// from sanitizer/allocator_interface.h, which gcc does not install
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*onMalloc)(const volatile void*, size_t), void (*onFree)(const volatile void*));
#endif

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=86:allocator_may_return_null=0:malloc_fill_byte=190:"
           "max_malloc_fill_size=65536:free_fill_byte=85:max_free_fill_size=65536:"
           "quarantine_size_mb=24:detect_stack_use_after_return=0:hard_rss_limit_mb=3000:"
           "check_printf=0:detect_odr_violation=0:handle_abort=1:new_delete_type_mismatch=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=86:print_stacktrace=1";
}
extern "C" const char* __tsan_default_options()
{
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4:"
           "report_thread_leaks=0:detect_deadlocks=0:second_deadlock_stack=0";
}

// the fibers of sched.cpp share the thread-local variables of one OS thread: std::call_once (of futures) keeps its argument in one
extern "C" const char* __tsan_default_suppressions()
{
    return "race_top:_Prepare_execution\n";
}

namespace vp {
namespace {
    constexpr uint32_t maxChoices = 1u << 16;
    constexpr uint32_t maxMarks = 1u << 14;
    constexpr uint32_t traceSize = 1u << 16;
    constexpr int exitFail = 77;
    constexpr int exitHang = 78;
    constexpr int exitDiscard = 79;
    constexpr int maxLabels = 96;

    struct Slot {
        volatile uint64_t currentCase;
        volatile uint64_t evaluations;
        volatile uint64_t nontrivialCases;
        volatile uint64_t discarded;
        volatile uint64_t totalChoices;
        uint32_t choiceCount;
        uint32_t choices[maxChoices];
        uint32_t markCount;
        uint32_t marks[maxMarks];
        char msg[8192];
        uint32_t traceLen;
        char trace[traceSize];
        uint64_t labelCount[maxLabels];
        char labelName[maxLabels][64];
        volatile int labels;
    };

    Slot* slot = nullptr;  // slot of this process
    bool traceOn = false;
    bool fuzzing = false;
    bool isNontrivial = false;
    uint64_t rngState = 0;
    bool replaying = false;
    const uint32_t* replayChoices = nullptr;
    uint32_t replayCount = 0;
    const uint8_t* fuzzData = nullptr;
    size_t fuzzSize = 0;
    size_t fuzzPos = 0;
    const char* labelPtr[maxLabels];
    uint32_t caseLabels[64];
    uint32_t caseLabelCount = 0;
    int64_t liveBlocks = 0;
    unsigned cpuLimit = 20;

    uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    struct Discard {};

#ifdef VP_ASAN
    void onMalloc(const volatile void*, size_t) { ++liveBlocks; }
    void onFree(const volatile void* p)
    {
        if (p != nullptr) {
            --liveBlocks;
        }
    }
#endif
}  // namespace

Ctx ctx;

int64_t heapBlocks()
{
    return liveBlocks;
}

uint32_t Ctx::below(uint32_t n)
{
    uint32_t v = 0;
    if (n > 1) {
        const uint32_t pos = slot->choiceCount;
        if (replaying) {
            v = (pos < replayCount) ? replayChoices[pos] % n : 0;
        } else if (fuzzing) {
            const size_t need = (n <= 256) ? 1 : ((n <= 65536) ? 2 : 4);
            uint32_t raw = 0;
            for (size_t k = 0; k < need && fuzzPos < fuzzSize; ++k) {
                raw = (raw << 8) | fuzzData[fuzzPos++];
            }
            v = raw % n;
        } else {
            v = static_cast<uint32_t>(((splitmix(rngState) >> 32) * n) >> 32);
        }
    }
    if (slot->choiceCount >= maxChoices) {
        discard();
    }
    slot->choices[slot->choiceCount++] = v;
    return v;
}

uint32_t Ctx::weighted(std::initializer_list<uint32_t> w)
{
    uint32_t total = 0;
    for (auto x : w) {
        total += x;
    }
    uint32_t v = below(total);
    uint32_t i = 0;
    for (auto x : w) {
        if (v < x) {
            return i;
        }
        v -= x;
        ++i;
    }
    return 0;
}

bool Ctx::more(uint32_t mean)
{
    mark();
    return below(mean + 1) != 0;
}

void Ctx::mark()
{
    if (slot->markCount < maxMarks) {
        slot->marks[slot->markCount++] = slot->choiceCount;
    }
}

void Ctx::label(const char* name)
{
    for (uint32_t i = 0; i < caseLabelCount; ++i) {
        if (labelPtr[caseLabels[i]] == name) {
            return;
        }
    }
    int k = 0;
    for (; k < slot->labels; ++k) {
        if (labelPtr[k] == name) {
            break;
        }
    }
    if (k == slot->labels) {
        if (k == maxLabels) {
            return;
        }
        labelPtr[k] = name;
        strncpy(slot->labelName[k], name, 63);
        slot->labels = k + 1;
    }
    slot->labelCount[k] += 1;
    if (caseLabelCount < 64) {
        caseLabels[caseLabelCount++] = static_cast<uint32_t>(k);
    }
}

void Ctx::nontrivial()
{
    isNontrivial = true;
}

bool Ctx::tracing() const
{
    return traceOn;
}

void Ctx::log(const char* fmt, ...)
{
    if (!traceOn || slot->traceLen + 512 > traceSize) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(slot->trace + slot->traceLen, 500, fmt, ap);
    va_end(ap);
    n = std::min(n, 499);
    slot->traceLen += static_cast<uint32_t>(n);
    slot->trace[slot->traceLen++] = '\n';
}

void Ctx::fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(slot->msg, sizeof(slot->msg) - 1, fmt, ap);
    va_end(ap);
    if (fuzzing) {
        fprintf(stderr, "VP-FAIL: %s\n", slot->msg);
        abort();
    }
    _exit(exitFail);
}

void Ctx::discard()
{
    throw Discard{};
}

namespace {
    [[noreturn]] void terminated()
    {
        if (slot != nullptr && slot->msg[0] == 0) {
            snprintf(slot->msg, sizeof(slot->msg), "std::terminate was called (exception out of a noexcept function or thread?)");
        }
        if (fuzzing) {
            abort();
        }
        _exit(exitFail);
    }

    // runs the case selected by rngState or replayChoices; false if discarded
    bool runCase()
    {
        slot->choiceCount = 0;
        slot->markCount = 0;
        slot->msg[0] = 0;
        slot->traceLen = 0;
        isNontrivial = false;
        caseLabelCount = 0;
        const auto before = liveBlocks;
        try {
            property.run();
        }
        catch (const Discard&) {
            return false;
        }
        catch (const std::exception& e) {
            ctx.fail("unexpected exception: %s", e.what());
        }
        catch (...) {
            ctx.fail("unexpected exception");
        }
        if (property.heapBalanced && liveBlocks != before) {
            ctx.fail(
                "heap not balanced after everything was destroyed: %+lld block(s)",
                static_cast<long long>(liveBlocks - before));
        }
        return true;
    }

    uint64_t choiceHash()
    {
        uint64_t h = 0xcbf29ce484222325ULL;
        for (uint32_t i = 0; i < slot->choiceCount; ++i) {
            h = (h ^ slot->choices[i]) * 0x100000001b3ULL;
            h ^= h >> 29;
        }
        return h;
    }

    uint64_t caseSeed(uint64_t seed, uint64_t index)
    {
        uint64_t s = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
        uint64_t a = splitmix(s);
        uint64_t t = a ^ (index * 0xd1342543de82ef95ULL);
        return splitmix(t);
    }

    // a case that does not end: CPU seconds on one case
    uint64_t tickCase = ~0ULL;
    uint64_t tickEval = ~0ULL;
    unsigned ticks = 0;
    void onTick(int)
    {
        if (slot->currentCase != tickCase || slot->evaluations != tickEval) {
            tickCase = slot->currentCase;
            tickEval = slot->evaluations;
            ticks = 0;
            return;
        }
        if (++ticks >= cpuLimit) {
            snprintf(slot->msg, sizeof(slot->msg), "no end after %u s of CPU time in one case (endless loop)", cpuLimit);
            _exit(exitHang);
        }
    }
    void startTicks()
    {
        struct sigaction sa {};
        sa.sa_handler = onTick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGVTALRM, &sa, nullptr);
        itimerval tv{};
        tv.it_interval.tv_sec = 1;
        tv.it_value.tv_sec = 1;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    }

    // ---------------------------------------------------------------- parent side
    double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    std::string tmpDir;
    constexpr int workers = 8;
    Slot* slots = nullptr;  // workers + 1 for replays

    std::string stderrName(int k)
    {
        return tmpDir + "/stderr." + std::to_string(k);
    }
    void redirectStderr(int k)
    {
        int fd = open(stderrName(k).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
    }
    std::string readFile(const std::string& n, size_t limit)
    {
        std::string r;
        FILE* f = fopen(n.c_str(), "rb");
        if (f != nullptr) {
            char buf[4096];
            size_t g = 0;
            while (r.size() < limit && (g = fread(buf, 1, sizeof(buf), f)) > 0) {
                r.append(buf, g);
            }
            fclose(f);
        }
        return r;
    }
    uint64_t cpuTicksOf(pid_t p)
    {
        auto s = readFile("/proc/" + std::to_string(p) + "/stat", 4096);
        auto i = s.rfind(')');
        if (i == std::string::npos) {
            return 0;
        }
        unsigned long long ut = 0;
        unsigned long long st = 0;
        sscanf(s.c_str() + i + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &ut, &st);
        return ut + st;
    }

    struct Outcome {
        bool failed{false};
        bool discarded{false};
        bool nontrivial{false};
        std::string msg;
    };

    std::string describe(int status, const Slot& s, const std::string& err)
    {
        std::string m(s.msg);
        if (WIFEXITED(status) && (WEXITSTATUS(status) == exitFail || WEXITSTATUS(status) == exitHang)) {
            return m;
        }
        std::string head;
        auto i = err.find("ERROR: ");
        if (i == std::string::npos) {
            i = err.find("WARNING: ThreadSanitizer");
        }
        if (i == std::string::npos) {
            i = err.find("runtime error: ");
        }
        if (i != std::string::npos) {
            head = err.substr(i, err.find('\n', i) - i);
            auto k = err.find("/repo/", i);
            if (k != std::string::npos) {
                head += " at " + err.substr(k, err.find_first_of("\n)", k) - k);
            }
        } else if (WIFSIGNALED(status)) {
            head = "killed by signal " + std::to_string(WTERMSIG(status));
        } else {
            head = "abnormal exit with status " + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
        }
        return m.empty() ? head : m + " / " + head;
    }

    // waits for a child that runs a single case, with a fallback for one that neither ends nor uses CPU
    int waitChild(pid_t p, double wallLimit)
    {
        int status = 0;
        double lastProgress = now();
        uint64_t lastCpu = 0;
        useconds_t nap = 50;
        for (;;) {
            pid_t r = waitpid(p, &status, WNOHANG);
            if (r == p) {
                return status;
            }
            usleep(nap);
            nap = std::min<useconds_t>(nap * 2, 20000);
            if (nap >= 20000) {
                auto c = cpuTicksOf(p);
                if (c != lastCpu) {
                    lastCpu = c;
                    lastProgress = now();
                }
                if (now() - lastProgress > wallLimit) {
                    kill(p, SIGKILL);
                    waitpid(p, &status, 0);
                    return exitHang << 8;
                }
            }
        }
    }

    Outcome runChoices(const std::vector<uint32_t>& ch, bool trace, unsigned limit)
    {
        Slot& s = slots[workers];
        s.msg[0] = 0;
        s.choiceCount = 0;
        s.markCount = 0;
        s.currentCase = 0;
        s.evaluations = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            redirectStderr(workers);
            slot = &s;
            cpuLimit = limit;
            replaying = true;
            replayChoices = ch.data();
            replayCount = static_cast<uint32_t>(ch.size());
            traceOn = trace;
            startTicks();
            bool ok = runCase();
            _exit(ok ? (isNontrivial ? 1 : 0) : exitDiscard);
        }
        int st = waitChild(p, 20.0);
        Outcome o;
        if (WIFEXITED(st) && WEXITSTATUS(st) == exitDiscard) {
            o.discarded = true;
        } else if (!(WIFEXITED(st) && WEXITSTATUS(st) <= 1)) {
            o.failed = true;
            if (s.msg[0] == 0 && WIFEXITED(st) && WEXITSTATUS(st) == exitHang) {
                snprintf(s.msg, sizeof(s.msg), "blocked for good without using CPU time");
            }
            o.msg = describe(st, s, readFile(stderrName(workers), 20000));
        } else {
            o.nontrivial = WEXITSTATUS(st) == 1;
        }
        return o;
    }

    std::vector<uint32_t> shrink(std::vector<uint32_t> best, std::string& msg)
    {
        const double deadline = now() + 40;
        int tries = 0;
        std::vector<uint32_t> marks;
        auto attempt = [&](const std::vector<uint32_t>& cand) {
            if (now() > deadline || ++tries > 4000) {
                return false;
            }
            auto o = runChoices(cand, false, 4);
            if (!o.failed) {
                return false;
            }
            Slot& s = slots[workers];
            std::vector<uint32_t> used(s.choices, s.choices + s.choiceCount);
            while (!used.empty() && used.back() == 0) {
                used.pop_back();
            }
            if (used.size() > best.size() || (used.size() == best.size() && used >= best)) {
                return false;
            }
            best = std::move(used);
            marks.assign(s.marks, s.marks + s.markCount);
            msg = o.msg;
            return true;
        };
        {
            auto copy = best;
            runChoices(copy, false, 4);
            Slot& s = slots[workers];
            marks.assign(s.marks, s.marks + s.markCount);
        }
        bool progress = true;
        while (progress && now() < deadline && tries < 4000) {
            progress = false;
            // whole units, longest runs first
            for (size_t run = std::max<size_t>(marks.size() / 2, 1); run >= 1; run /= 2) {
                for (size_t i = 0; i + 1 <= marks.size();) {
                    size_t a = marks[i];
                    size_t b = (i + run < marks.size()) ? marks[i + run] : best.size();
                    if (a >= best.size() || b <= a) {
                        ++i;
                        continue;
                    }
                    b = std::min(b, best.size());
                    std::vector<uint32_t> c(best.begin(), best.begin() + static_cast<long>(a));
                    c.insert(c.end(), best.begin() + static_cast<long>(b), best.end());
                    if (attempt(c)) {
                        progress = true;
                    } else {
                        i += std::max<size_t>(run / 2, 1);
                    }
                }
                if (run == 1) {
                    break;
                }
            }
            for (size_t len : {8u, 4u, 2u, 1u}) {
                for (size_t i = 0; i + len <= best.size();) {
                    std::vector<uint32_t> c(best.begin(), best.begin() + static_cast<long>(i));
                    c.insert(c.end(), best.begin() + static_cast<long>(i + len), best.end());
                    if (attempt(c)) {
                        progress = true;
                    } else {
                        i += len;
                    }
                }
            }
            for (size_t i = 0; i < best.size(); ++i) {
                while (i < best.size() && best[i] > 0) {
                    bool got = false;
                    for (uint32_t v : {0u, best[i] / 2, best[i] - 1}) {
                        if (v < best[i]) {
                            auto c = best;
                            c[i] = v;
                            if (attempt(c)) {
                                got = true;
                                break;
                            }
                        }
                    }
                    if (!got) {
                        break;
                    }
                    progress = true;
                }
            }
        }
        return best;
    }

    std::string jsonStr(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += static_cast<char>(c);
            } else if (c == '\n') {
                r += "\\n";
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof(b), "\\u%04x", c);
                r += b;
            } else {
                r += static_cast<char>(c);
            }
        }
        return r + "\"";
    }
    std::string jsonLines(const std::string& s)
    {
        std::string r = "[";
        size_t i = 0;
        bool first = true;
        while (i < s.size()) {
            auto e = s.find('\n', i);
            if (e == std::string::npos) {
                e = s.size();
            }
            r += (first ? "\n    " : ",\n    ") + jsonStr(s.substr(i, e - i));
            first = false;
            i = e + 1;
        }
        return r + "]";
    }
    std::string traceText()
    {
        return std::string(slots[workers].trace, slots[workers].traceLen);
    }

    std::string writeReplay(
        const std::string& dir,
        const std::vector<uint32_t>& ch,
        const std::string& msg,
        uint64_t seed,
        long long index,
        const std::string& tier)
    {
        uint64_t h = 1469598103934665603ULL;
        for (auto v : ch) {
            h = (h ^ v) * 1099511628211ULL;
        }
        char name[64];
        snprintf(name, sizeof(name), "/%s-%016llx.json", property.id, static_cast<unsigned long long>(h));
        mkdir(dir.c_str(), 0755);
        std::string path = dir + name;
        FILE* f = fopen(path.c_str(), "wb");
        if (f == nullptr) {
            return path;
        }
        std::string c;
        for (size_t i = 0; i < ch.size(); ++i) {
            c += (i != 0 ? "," : "") + std::to_string(ch[i]);
        }
        fprintf(
            f,
            "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"case\": %lld,\n \"message\": %s,\n \"choices\": [%s],\n \"trace\": %s,\n \"stderr\": %s}\n",
            property.id,
            tier.c_str(),
            static_cast<unsigned long long>(seed),
            index,
            jsonStr(msg).c_str(),
            c.c_str(),
            jsonLines(traceText()).c_str(),
            jsonLines(readFile(stderrName(workers), 8000)).c_str());
        fclose(f);
        return path;
    }

    std::vector<uint32_t> parseChoices(const std::string& text)
    {
        std::vector<uint32_t> r;
        auto i = text.find("\"choices\"");
        if (i == std::string::npos) {
            return r;
        }
        i = text.find('[', i);
        while (i != std::string::npos && i < text.size() && text[i] != ']') {
            ++i;
            while (i < text.size() && (text[i] == ' ' || text[i] == '\n')) {
                ++i;
            }
            if (text[i] == ']') {
                break;
            }
            r.push_back(static_cast<uint32_t>(strtoul(text.c_str() + i, nullptr, 10)));
            i = text.find_first_of(",]", i);
        }
        return r;
    }

    void workerMain(int k, uint64_t first, uint64_t total, uint64_t seed, int hashFd)
    {
        slot = &slots[k];
        redirectStderr(k);
        startTicks();
        std::vector<uint64_t> hashes;
        hashes.reserve(4096);
        auto flush = [&] {
            size_t len = hashes.size() * 8;
            const char* p = reinterpret_cast<const char*>(hashes.data());
            while (len > 0) {
                auto w = write(hashFd, p, len);
                if (w <= 0) {
                    break;
                }
                p += w;
                len -= static_cast<size_t>(w);
            }
            hashes.clear();
        };
        for (uint64_t i = first; i < total; i += workers) {
            slot->currentCase = i;
            rngState = caseSeed(seed, i);
            if (!runCase()) {
                slot->discarded = slot->discarded + 1;
                continue;
            }
            slot->evaluations = slot->evaluations + 1;
            slot->totalChoices = slot->totalChoices + slot->choiceCount;
            if (isNontrivial) {
                slot->nontrivialCases = slot->nontrivialCases + 1;
                hashes.push_back(choiceHash());
                if (hashes.size() == 4096) {
                    flush();
                }
            }
        }
        flush();
        slot->currentCase = ~0ULL;
        _exit(0);
    }

    int usage()
    {
        fprintf(stderr, "usage: harness run|replay FILE ... (see /verif/check)\n");
        return 2;
    }
}  // namespace

int realMain(int argc, char** argv)
{
    std::string mode = (argc > 1) ? argv[1] : "";
    std::string tier = "quick";
    uint64_t seed = 1;
    uint64_t cases = 0;
    std::string evidence;
    std::string replayDir = ".";
    std::string file;
    double maxWall = 600;
    std::vector<std::string> extra;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") {
            tier = val();
        } else if (a == "--seed") {
            seed = strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--cases") {
            cases = strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--evidence") {
            evidence = val();
        } else if (a == "--replay-dir") {
            replayDir = val();
        } else if (a == "--max-wall") {
            maxWall = strtod(val().c_str(), nullptr);
        } else if (a == "--dump") {
            file = val();
        } else if (a == "--tmp") {
            tmpDir = val();
        } else {
            file = a;
        }
    }
    std::set_terminate(terminated);
    slots = static_cast<Slot*>(mmap(
        nullptr, sizeof(Slot) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (slots == MAP_FAILED) {
        perror("mmap");
        return 2;
    }
#ifdef VP_ASAN
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
    bool madeTmp = false;
    if (tmpDir.empty()) {
        char t[] = "/tmp/vp-XXXXXX";
        tmpDir = mkdtemp(t);
        madeTmp = true;
    }
    auto cleanup = [&] {
        if (madeTmp) {
            for (int k = 0; k <= workers; ++k) {
                unlink(stderrName(k).c_str());
            }
            rmdir(tmpDir.c_str());
        }
    };
    auto violation = [&](const std::vector<uint32_t>& ch, std::string msg, long long index, bool doShrink) {
        auto best = doShrink ? shrink(ch, msg) : ch;
        auto o = runChoices(best, true, 20);
        if (!o.failed) {
            best = ch;
            o = runChoices(best, true, 20);
        }
        if (o.failed) {
            msg = o.msg;
        }
        auto path = writeReplay(replayDir, best, msg, seed, index, tier);
        printf("%s\n", traceText().c_str());
        printf("%s: %s\n", property.id, msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
        fflush(stdout);
    };

    if (mode == "replay" || mode == "confirm") {
        // confirm: like replay, but shrinks and reports a failing input found by the fuzzer
        std::vector<uint32_t> ch;
        if (mode == "confirm") {
            std::string raw = readFile(file, sizeof(Slot));
            if (raw.size() >= sizeof(Slot)) {
                auto* d = reinterpret_cast<const Slot*>(raw.data());
                ch.assign(d->choices, d->choices + std::min(d->choiceCount, maxChoices));
            }
        } else {
            ch = parseChoices(readFile(file, 1u << 24));
        }
        auto o = runChoices(ch, true, 20);
        if (mode == "replay") {
            printf("%s", traceText().c_str());
            if (o.failed) {
                printf("%s\n%s: %s\n", readFile(stderrName(workers), 20000).c_str(), property.id, o.msg.c_str());
                printf("VIOLATION property=%s replay=%s\n", property.id, file.c_str());
            } else {
                printf("%s: the case passes\n", property.id);
            }
            cleanup();
            return o.failed ? 1 : 0;
        }
        int again = 0;
        for (int k = 0; k < 3 && o.failed; ++k) {
            again += runChoices(ch, false, 20).failed ? 1 : 0;
        }
        if (again == 3) {
            violation(ch, o.msg, -1, true);
        }
        cleanup();
        return again == 3 ? 1 : 0;
    }
    if (mode != "run") {
        return usage();
    }
    const double start = now();
    const uint64_t total = (cases != 0) ? cases : (tier == "thorough" ? property.thoroughCases : property.quickCases);
    std::string hashFile = tmpDir + "/hashes";
    int hashFd = open(hashFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    pid_t pids[workers];
    uint64_t lastCase[workers];
    double lastMove[workers];
    uint64_t lastCpu[workers];
    auto launch = [&](int k, uint64_t first) {
        slots[k].msg[0] = 0;
        slots[k].currentCase = first;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            workerMain(k, first, total, seed, hashFd);
        }
        pids[k] = p;
        lastCase[k] = ~0ULL;
        lastMove[k] = now();
        lastCpu[k] = 0;
    };
    for (int k = 0; k < workers; ++k) {
        launch(k, static_cast<uint64_t>(k));
    }
    int running = workers;
    int rc = 0;
    uint64_t unreproduced = 0;
    bool timeUp = false;
    std::string unreproducedMsg;
    auto killAll = [&] {
        for (int k = 0; k < workers; ++k) {
            if (pids[k] > 0) {
                kill(pids[k], SIGKILL);
                waitpid(pids[k], nullptr, 0);
                pids[k] = 0;
            }
        }
        running = 0;
    };
    while (running > 0) {
        bool any = false;
        for (int k = 0; k < workers && rc == 0; ++k) {
            if (pids[k] <= 0) {
                continue;
            }
            int st = 0;
            pid_t r = waitpid(pids[k], &st, WNOHANG);
            if (r == 0) {
                // blocked without using CPU time?
                uint64_t mark = slots[k].currentCase + slots[k].evaluations;
                auto cpu = cpuTicksOf(pids[k]);
                if (mark != lastCase[k] || cpu != lastCpu[k]) {
                    lastCase[k] = mark;
                    lastCpu[k] = cpu;
                    lastMove[k] = now();
                } else if (now() - lastMove[k] > 30) {
                    kill(pids[k], SIGKILL);
                }
                continue;
            }
            any = true;
            --running;
            pids[k] = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                continue;
            }
            std::vector<uint32_t> ch(slots[k].choices, slots[k].choices + slots[k].choiceCount);
            const uint64_t index = slots[k].currentCase;
            std::string msg = describe(st, slots[k], readFile(stderrName(k), 20000));
            int again = 0;
            std::string msg2;
            int tries = 3;
            for (int t = 0; t < tries; ++t) {
                auto o = runChoices(ch, false, 20);
                if (o.failed) {
                    ++again;
                    msg2 = o.msg;
                } else if (tries == 3) {
                    tries = 10;
                }
            }
            if (again == tries || again >= 5) {
                killAll();
                violation(ch, msg2, static_cast<long long>(index), again == tries);
                rc = 1;
            } else {
                ++unreproduced;
                unreproducedMsg = msg;
                printf(
                    "NOTE %s: case %llu failed once (%s) but only %d of %d replays failed; not reported\n",
                    property.id,
                    static_cast<unsigned long long>(index),
                    msg.c_str(),
                    again,
                    tries);
                if (unreproduced < 20 && index + workers < total) {
                    launch(k, index + workers);
                    ++running;
                }
            }
        }
        if (rc != 0) {
            break;
        }
        if (!any) {
            usleep(20000);
        }
        if (now() - start > maxWall && running > 0) {
            timeUp = true;
            killAll();
        }
    }
    close(hashFd);
    uint64_t evals = 0;
    uint64_t discarded = 0;
    uint64_t choices = 0;
    std::vector<std::pair<std::string, uint64_t>> labels;
    for (int k = 0; k < workers; ++k) {
        evals += slots[k].evaluations;
        discarded += slots[k].discarded;
        choices += slots[k].totalChoices;
        for (int j = 0; j < slots[k].labels; ++j) {
            auto it = std::find_if(labels.begin(), labels.end(), [&](auto& p) { return p.first == slots[k].labelName[j]; });
            if (it == labels.end()) {
                labels.emplace_back(slots[k].labelName[j], slots[k].labelCount[j]);
            } else {
                it->second += slots[k].labelCount[j];
            }
        }
    }
    std::sort(labels.begin(), labels.end());
    uint64_t distinct = 0;
    {
        std::unordered_set<uint64_t> seen;
        FILE* f = fopen(hashFile.c_str(), "rb");
        if (f != nullptr) {
            std::vector<uint64_t> buf(65536);
            size_t g = 0;
            while ((g = fread(buf.data(), 8, buf.size(), f)) > 0) {
                seen.insert(buf.begin(), buf.begin() + static_cast<long>(g));
            }
            fclose(f);
        }
        distinct = seen.size();
        unlink(hashFile.c_str());
    }
    // samples: the first three non-trivial cases, decoded
    std::string samples;
    int got = 0;
    if (rc == 0) {
        for (uint64_t i = 0; i < 400 && i < total && got < 3; ++i) {
            Slot& s = slots[workers];
            fflush(stdout);
            s.msg[0] = 0;
            s.traceLen = 0;
            pid_t p = fork();
            if (p == 0) {
                redirectStderr(workers);
                slot = &s;
                traceOn = true;
                startTicks();
                rngState = caseSeed(seed, i);
                bool ok = runCase();
                _exit(ok && isNontrivial ? 1 : 0);
            }
            int st = waitChild(p, 20);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && s.traceLen > 0 && s.traceLen < 6000) {
                samples += (got != 0 ? ",\n  " : "") + std::string("{\"case\": ") + std::to_string(i) +
                    ", \"trace\": " + jsonLines(traceText()) + "}";
                ++got;
            }
        }
    }
    const double wall = now() - start;
    if (!evidence.empty()) {
        FILE* f = fopen((evidence + ".tmp").c_str(), "wb");
        if (f != nullptr) {
            std::string lab;
            for (auto& l : labels) {
                lab += (lab.empty() ? "" : ", ") + jsonStr(l.first) + ": " + std::to_string(l.second);
            }
            fprintf(
                f,
                "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n"
                " \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n"
                "  \"rule\": %s,\n  \"choices_drawn\": %llu, \"discarded\": %llu, \"unreproduced_failures\": %llu, \"stopped_by_wall_limit\": %s,\n"
                "  \"labels\": {%s},\n  \"samples\": [%s]},\n \"wall_s\": %.2f, \"violations\": %d}\n",
                property.id,
                tier.c_str(),
                static_cast<unsigned long long>(seed),
                static_cast<unsigned long long>(evals),
                static_cast<unsigned long long>(distinct),
                jsonStr(property.rule).c_str(),
                static_cast<unsigned long long>(choices),
                static_cast<unsigned long long>(discarded),
                static_cast<unsigned long long>(unreproduced),
                timeUp ? "true" : "false",
                lab.c_str(),
                samples.c_str(),
                wall,
                rc);
            fclose(f);
            rename((evidence + ".tmp").c_str(), evidence.c_str());
        }
    }
    printf(
        "%s %s: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s, %s\n",
        property.id,
        tier.c_str(),
        static_cast<unsigned long long>(evals),
        static_cast<unsigned long long>(distinct),
        static_cast<unsigned long long>(discarded),
        wall,
        rc == 0 ? "no violation" : "VIOLATED");
    cleanup();
    return rc;
}

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    const char* dump = getenv("VP_DUMP");
    int fd = -1;
    if (dump != nullptr) {
        fd = open(dump, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof(Slot)) != 0) {
            fd = -1;
        }
    }
    slots = static_cast<Slot*>(mmap(
        nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | (fd < 0 ? MAP_ANONYMOUS : 0), fd, 0));
    slot = slots;
    fuzzing = true;
    std::set_terminate(terminated);
#    ifdef VP_ASAN
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#    endif
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    fuzzData = data;
    fuzzSize = size;
    fuzzPos = 0;
    runCase();
    return 0;
}
#endif
}  // namespace vp

#ifndef VP_FUZZ
int main(int argc, char** argv)
{
    return vp::realMain(argc, argv);
}
#endif

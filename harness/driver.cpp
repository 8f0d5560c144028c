// Search / replay / shrink driver shared by all harnesses (see pbt.hpp).
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace pbt;
using std::string;
using std::vector;

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:"
           "allocator_may_return_null=0:max_malloc_fill_size=65536:malloc_fill_byte=190:handle_segv=1:"
           "quarantine_size_mb=16:fast_unwind_on_malloc=1:malloc_context_size=4";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }

static const int kCaseCpuSeconds = 20; // a case that burns this much CPU is a hang
static int CpuOf(int f) { return Registry::get().facets[size_t(f)].weight ? kCaseCpuSeconds : 6 * kCaseCpuSeconds; }
static uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static string jesc(const string &s, size_t lim = 4000)
{
    string o;
    for (unsigned char ch : s.substr(0, lim))
    {
        if (ch == '"' || ch == '\\')
            o += '\\', o += ch;
        else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o;
}

// ------------------------------------------------------------------ one case
struct Outcome
{
    int status = 0; // 0 pass, 1 fail, 2 discard
    string id, msg;
};
static Outcome RunCase(const Facet &f, Src &s, Ctx &c)
{
    Outcome o;
    try
    {
        f.fn(s, c);
    }
    catch (const Failure &x)
    {
        o.status = 1;
        o.id = x.id;
        o.msg = x.msg;
    }
    catch (const Discard &)
    {
        o.status = 2;
    }
    catch (const std::exception &e)
    {
        o.status = 1;
        o.id = "unexpected-exception";
        o.msg = string(typeid(e).name()) + ": " + e.what();
    }
    catch (...)
    {
        o.status = 1;
        o.id = "unexpected-exception";
        o.msg = "non-standard exception";
    }
    return o;
}
struct Shared
{
    volatile uint64_t seed, index, evals;
    volatile int facet, state; // state: 0 running, 1 failed (id/msg valid), 2 finished
    char id[256], msg[4000], desc[8000];
    volatile int stop;
};
static Shared *NewShared()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(p, 0, sizeof(Shared));
    return static_cast<Shared *>(p);
}
static void OnHang(int) { _exit(97); }
static void ArmCpu(int secs)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static void ChildSetup(const string &errFile)
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    int e = errFile.empty() ? n : open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 2);
    signal(SIGVTALRM, OnHang);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static string CrashId(int st)
{
    if (WIFEXITED(st))
    {
        int c = WEXITSTATUS(st);
        if (c == 99)
            return "crash:asan";
        if (c == 98)
            return "crash:ubsan";
        if (c == 97)
            return "hang";
        return "crash:exit" + std::to_string(c);
    }
    if (WIFSIGNALED(st))
        return "crash:sig" + std::to_string(WTERMSIG(st));
    return "crash:?";
}
static string Tail(const string &f, size_t n)
{
    std::ifstream i(f);
    std::stringstream b;
    b << i.rdbuf();
    string s = b.str();
    return s.substr(0, n);
}

typedef std::pair<int, vector<uint64_t>> Step; // facet, choices
struct Isolated
{
    bool failed = false;
    string id, msg, desc;
};
static string gTmp;
// Runs a sequence of cases in one child process; fails if the *last* case fails (or anything crashes).
static Isolated RunIsolated(const vector<Step> &seq, bool wantDesc = false)
{
    Shared *sh = NewShared();
    string err = gTmp + "/err." + std::to_string(getpid());
    pid_t pid = fork();
    if (!pid)
    {
        ChildSetup(err);
        for (size_t i = 0; i < seq.size(); i++)
        {
            ArmCpu(CpuOf(seq[i].first));
            sh->index = i;
            Src s(seq[i].second);
            Ctx c;
            if (wantDesc && i + 1 == seq.size())
            {
                c.desc.buf.mirror = sh->desc;
                c.desc.buf.cap = sizeof sh->desc;
            }
            Outcome o = RunCase(Registry::get().facets[seq[i].first], s, c);
            if (i + 1 == seq.size())
            {
                if (o.status == 1)
                {
                    strncpy(sh->id, o.id.c_str(), sizeof sh->id - 1);
                    strncpy(sh->msg, o.msg.c_str(), sizeof sh->msg - 1);
                    sh->state = 1;
                }
                else
                    sh->state = 2;
            }
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Isolated r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state)
    {
        r.failed = sh->state == 1;
        r.id = sh->id;
        r.msg = sh->msg;
    }
    else
    {
        r.failed = true;
        r.id = CrashId(st);
        r.msg = Tail(err, 2500);
    }
    r.desc = sh->desc;
    unlink(err.c_str());
    munmap(sh, sizeof(Shared));
    return r;
}

static double Now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// same kind of failure? (crash flavours may differ between shrink steps)
static bool SameKind(const string &a, const string &b)
{
    if (a.rfind("crash", 0) == 0 && b.rfind("crash", 0) == 0)
        return true;
    return a == b;
}
static vector<uint64_t> Shrink(int facet, vector<uint64_t> ch, const string &id, double secs, long &execs)
{
    double end = Now() + secs;
    auto bad = [&](const vector<uint64_t> &c) {
        execs++;
        Isolated r = RunIsolated({{facet, c}});
        return r.failed && SameKind(r.id, id);
    };
    auto trim = [](vector<uint64_t> &c) {
        while (!c.empty() && c.back() == 0)
            c.pop_back();
    };
    trim(ch);
    bool progress = true;
    while (progress && Now() < end)
    {
        progress = false;
        for (size_t len : {64, 32, 16, 8, 4, 2, 1})
            for (long i = long(ch.size()) - long(len); i >= 0 && Now() < end; i -= std::max<long>(1, long(len) / 2))
            {
                if (size_t(i) + len > ch.size())
                    continue;
                vector<uint64_t> t(ch);
                t.erase(t.begin() + i, t.begin() + i + len);
                if (bad(t))
                    ch = t, trim(ch), progress = true;
                else if (len > 1)
                {
                    t = ch;
                    std::fill(t.begin() + i, t.begin() + i + len, 0);
                    if (t != ch && bad(t))
                        ch = t, trim(ch), progress = true;
                }
            }
        for (size_t i = 0; i < ch.size() && Now() < end; i++)
        {
            if (!ch[i])
                continue;
            vector<uint64_t> t(ch);
            t[i] = 0;
            if (bad(t))
            {
                ch = t;
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = ch[i]; // hi fails, lo passes
            while (hi - lo > 1 && Now() < end)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                t[i] = mid;
                if (bad(t))
                    hi = mid;
                else
                    lo = mid;
            }
            if (hi != ch[i])
                ch[i] = hi, progress = true;
        }
        trim(ch);
    }
    return ch;
}

static bool WriteReplay(const string &path, const vector<Step> &seq, const Isolated &r)
{
    std::ofstream o(path);
    o << "{\n \"id\": \"" << jesc(r.id) << "\",\n \"message\": \"" << jesc(r.msg) << "\",\n \"case\": \"" << jesc(r.desc, 8000)
      << "\",\n \"steps\": [\n";
    for (size_t i = 0; i < seq.size(); i++)
    {
        o << "  {\"facet\": \"" << Registry::get().facets[seq[i].first].name << "\", \"choices\": [";
        for (size_t k = 0; k < seq[i].second.size(); k++)
            o << (k ? "," : "") << seq[i].second[k];
        o << "]}" << (i + 1 < seq.size() ? "," : "") << "\n";
    }
    o << " ]\n}\n";
    return bool(o);
}
static int FacetIndex(const string &n)
{
    for (size_t i = 0; i < Registry::get().facets.size(); i++)
        if (Registry::get().facets[i].name == n)
            return int(i);
    return -1;
}
// minimal reader for the replay format above
static vector<Step> ReadReplay(const string &path)
{
    std::ifstream i(path);
    std::stringstream b;
    b << i.rdbuf();
    string s = b.str();
    vector<Step> out;
    size_t p = s.find("\"steps\"");
    while (p != string::npos && (p = s.find("\"facet\": \"", p)) != string::npos)
    {
        p += 10;
        size_t e = s.find('"', p);
        int f = FacetIndex(s.substr(p, e - p));
        size_t l = s.find('[', e), r = s.find(']', l);
        vector<uint64_t> ch;
        std::stringstream ss(s.substr(l + 1, r - l - 1));
        string tok;
        while (std::getline(ss, tok, ','))
            if (!tok.empty())
                ch.push_back(strtoull(tok.c_str(), nullptr, 10));
        if (f < 0)
        {
            fprintf(stderr, "unknown facet in replay file\n");
            exit(2);
        }
        out.push_back({f, ch});
        p = r;
    }
    return out;
}

// ------------------------------------------------------------------ worker
static vector<int> Schedule()
{
    vector<int> s;
    unsigned mx = 0;
    for (auto &f : Registry::get().facets)
        mx = std::max(mx, f.weight);
    for (unsigned k = 0; k < mx; k++)
        for (size_t i = 0; i < Registry::get().facets.size(); i++)
            if (k < Registry::get().facets[i].weight)
                s.push_back(int(i));
    return s;
}
// the case of this number in this worker: the cases which are run once only come first, shared among the workers
static int FacetAt(uint64_t i, int w, int W, const vector<int> &sched)
{
    auto &F = Registry::get().facets;
    uint64_t k = 0;
    for (size_t f = 0; f < F.size(); f++)
        if (!F[f].weight && ++k == i && int(k % uint64_t(W)) == w)
            return int(f);
    return sched[i % sched.size()];
}
// coverage-guided mode draws from the others
static int FacetOfByte(uint8_t b)
{
    vector<int> s;
    auto &F = Registry::get().facets;
    for (size_t f = 0; f < F.size(); f++)
        if (F[f].weight)
            s.push_back(int(f));
    return s[b % s.size()];
}
struct Stats
{
    vector<long> evals, nontriv, discards;
    std::map<string, long> tags;
    vector<std::pair<string, string>> samples;
    std::unordered_set<uint64_t> hashes;
};
static void SaveStats(const Stats &st, const string &path)
{
    std::ofstream o(path, std::ios::binary);
    o << st.evals.size() << "\n";
    for (size_t i = 0; i < st.evals.size(); i++)
        o << st.evals[i] << " " << st.nontriv[i] << " " << st.discards[i] << "\n";
    o << st.tags.size() << "\n";
    for (auto &t : st.tags)
        o << t.second << " " << t.first << "\n";
    o << st.samples.size() << "\n";
    for (auto &t : st.samples)
        o << t.first << "\n"
          << jesc(t.second, 1200) << "\n";
    o << st.hashes.size() << "\n";
    for (auto h : st.hashes)
        o.write(reinterpret_cast<const char *>(&h), 8);
}
static bool LoadStats(Stats &t, const string &path)
{
    std::ifstream i(path, std::ios::binary);
    size_t n = 0;
    if (!(i >> n))
        return false;
    for (size_t k = 0; k < n; k++)
    {
        long a, b, c;
        i >> a >> b >> c;
        t.evals[k] += a;
        t.nontriv[k] += b;
        t.discards[k] += c;
    }
    i >> n;
    for (size_t k = 0; k < n; k++)
    {
        long v;
        string nm;
        i >> v;
        i.get();
        std::getline(i, nm);
        t.tags[nm] += v;
    }
    i >> n;
    i.get();
    for (size_t k = 0; k < n; k++)
    {
        string a, b;
        std::getline(i, a);
        std::getline(i, b);
        t.samples.push_back({a, b});
    }
    i >> n;
    i.get();
    for (size_t k = 0; k < n; k++)
    {
        uint64_t h;
        if (!i.read(reinterpret_cast<char *>(&h), 8))
            break;
        t.hashes.insert(h);
    }
    return true;
}
static uint64_t HashCase(int f, const vector<uint64_t> &c)
{
    uint64_t h = 1469598103934665603ull ^ uint64_t(f);
    for (auto v : c)
        h = mix(h, v);
    return h;
}
static void Worker(Shared *sh, Shared *stopFlag, int w, int W, uint64_t seed, double secs, uint64_t minCases, uint64_t maxCases,
                   const string &statFile)
{
    auto sched = Schedule();
    auto &F = Registry::get().facets;
    Stats st;
    st.evals.resize(F.size());
    st.nontriv.resize(F.size());
    st.discards.resize(F.size());
    std::map<int, int> nsamp;
    double end = Now() + secs;
    for (uint64_t i = 0; i < maxCases; i++)
    {
        if (stopFlag->stop || (Now() > end && i >= minCases))
            break;
        int f = FacetAt(i, w, W, sched);
        uint64_t cs = mix(seed, i);
        sh->seed = cs;
        sh->facet = f;
        sh->index = i;
        ArmCpu(CpuOf(f));
        Src s(cs);
        Ctx c;
        Outcome o = RunCase(F[f], s, c);
        sh->evals = i + 1;
        if (o.status == 1)
        {
            strncpy(sh->id, o.id.c_str(), sizeof sh->id - 1);
            strncpy(sh->msg, o.msg.c_str(), sizeof sh->msg - 1);
            sh->state = 1;
            stopFlag->stop = 1;
            ArmCpu(0);
            SaveStats(st, statFile);
            _exit(0);
        }
        if (o.status == 2)
        {
            st.discards[f]++;
            continue;
        }
        st.evals[f]++;
        for (auto &t : c.tags)
            st.tags[F[f].name + "/" + t.first] += t.second;
        if (c.nontrivial)
        {
            st.nontriv[f]++;
            if (st.hashes.size() < 400000)
                st.hashes.insert(HashCase(f, s.rec));
            if (nsamp[f] < 1 && i > sched.size() * 3)
            {
                nsamp[f]++;
                st.samples.push_back({F[f].name, c.desc.str()});
            }
        }
    }
    ArmCpu(0);
    SaveStats(st, statFile);
    sh->state = 2;
    _exit(0);
}

// re-derive the choices a seeded case made (without running past a failure)
// runs one case and returns the choices it drew, however it ended
static const size_t kMirror = 1 << 20;
static vector<uint64_t> Record(int facet, Src s)
{
    auto *buf = static_cast<uint64_t *>(
        mmap(nullptr, kMirror * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    pid_t pid = fork();
    if (!pid)
    {
        ChildSetup("");
        ArmCpu(CpuOf(facet));
        s.mirror = buf;
        s.mirrorCap = kMirror;
        Ctx c;
        RunCase(Registry::get().facets[facet], s, c);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    vector<uint64_t> out(buf + 1, buf + 1 + buf[0]);
    munmap(buf, kMirror * 8);
    return out;
}
static vector<uint64_t> ChoicesOf(int facet, uint64_t seed) { return Record(facet, Src(seed)); }

static int Report(FILE *out, const string &replayDir, const vector<Step> &seqIn, const string &id0, double shrinkSecs,
                  uint64_t evals)
{
    // confirm: the failure must reproduce, in isolation or with the history that led to it
    vector<Step> seq = seqIn;
    Isolated last;
    int hits = 0;
    for (int k = 0; k < 3; k++)
    {
        Isolated r = RunIsolated(seq, true);
        if (r.failed)
        {
            hits++;
            last = r;
        }
    }
    if (hits < 3)
    {
        fprintf(out, "{\"unreproducible\": {\"id\": \"%s\", \"hits\": %d}}\n", jesc(id0).c_str(), hits);
        return 3;
    }
    long execs = 0;
    if (seq.size() == 1)
    {
        seq[0].second = Shrink(seq[0].first, seq[0].second, last.id, shrinkSecs, execs);
        last = RunIsolated(seq, true);
    }
    string path = replayDir + "/" + Registry::get().facets[seq.back().first].name + "-" +
                  std::to_string(HashCase(seq.back().first, seq.back().second) % 1000000007ull) + ".json";
    WriteReplay(path, seq, last);
    fprintf(out,
            "{\"violation\": {\"facet\": \"%s\", \"id\": \"%s\", \"message\": \"%s\", \"case\": \"%s\", \"replay\": \"%s\", "
            "\"shrink_execs\": %ld, \"evaluations\": %llu}}\n",
            Registry::get().facets[seq.back().first].name.c_str(), jesc(last.id).c_str(), jesc(last.msg, 1500).c_str(),
            jesc(last.desc, 2000).c_str(), jesc(path).c_str(), execs, (unsigned long long)evals);
    return 1;
}

static int CmdRun(std::map<string, string> a)
{
    uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10);
    int W = atoi(a["workers"].c_str());
    double secs = atof(a["secs"].c_str());
    uint64_t minC = strtoull(a["min"].c_str(), nullptr, 10);
    uint64_t maxC = a.count("max") ? strtoull(a["max"].c_str(), nullptr, 10) : ~0ull;
    string rdir = a["replays"];
    FILE *out = fopen(a["out"].c_str(), "w");
    if (!out)
        return 2;
    Shared *flag = NewShared();
    vector<Shared *> sh(W);
    vector<pid_t> pid(W);
    vector<uint64_t> wseed(W);
    double t0 = Now();
    for (int w = 0; w < W; w++)
    {
        sh[w] = NewShared();
        wseed[w] = mix(mix(seed, 77), w);
        string sf = gTmp + "/st." + std::to_string(w), ef = gTmp + "/er." + std::to_string(w);
        pid[w] = fork();
        if (!pid[w])
        {
            ChildSetup(ef);
            Worker(sh[w], flag, w, W, wseed[w], secs, minC, maxC, sf);
        }
    }
    int bad = -1;
    string badId;
    for (int k = 0; k < W; k++)
    {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        for (int w = 0; w < W; w++)
            if (pid[w] == p)
            {
                bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0) || !sh[w]->state;
                if (crashed)
                {
                    flag->stop = 1;
                    strncpy(sh[w]->id, CrashId(st).c_str(), 200);
                    sh[w]->state = 1;
                }
                if (sh[w]->state == 1 && bad < 0)
                    bad = w;
            }
    }
    uint64_t ev = 0;
    for (int w = 0; w < W; w++)
        ev += sh[w]->evals;
    if (bad >= 0)
    {
        auto sched = Schedule();
        int f = sh[bad]->facet;
        auto solo = ChoicesOf(f, sh[bad]->seed);
        vector<Step> seq = {{f, solo}};
        Isolated r = RunIsolated(seq);
        if (!r.failed)
        { // depends on history: find a window of preceding cases that reproduces it
            uint64_t idx = sh[bad]->index;
            for (uint64_t win = 2; !r.failed; win *= 2)
            {
                seq.clear();
                uint64_t from = idx + 1 > win ? idx + 1 - win : 0;
                for (uint64_t i = from; i <= idx; i++)
                {
                    int g = FacetAt(i, bad, W, sched);
                    seq.push_back({g, ChoicesOf(g, mix(wseed[bad], i))});
                }
                r = RunIsolated(seq);
                if (from == 0 || win > 4096)
                    break;
            }
        }
        int rc = Report(out, rdir, seq, sh[bad]->id, atof(a["shrink"].c_str()), ev);
        fclose(out);
        return rc;
    }
    auto &F = Registry::get().facets;
    Stats t;
    t.evals.resize(F.size());
    t.nontriv.resize(F.size());
    t.discards.resize(F.size());
    for (int w = 0; w < W; w++)
        if (!LoadStats(t, gTmp + "/st." + std::to_string(w)))
            return 2;
    fprintf(out, "{\"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"rule\": \"%s\", \"search_s\": %.2f,\n \"facets\": {",
            (unsigned long long)ev, t.hashes.size(), jesc(kRule).c_str(), Now() - t0);
    for (size_t i = 0; i < F.size(); i++)
        fprintf(out, "%s\"%s\": {\"evaluations\": %ld, \"nontrivial\": %ld, \"discarded\": %ld%s}", i ? ", " : "",
                F[i].name.c_str(), t.evals[i], t.nontriv[i], t.discards[i], F[i].weight ? "" : ", \"once\": true");
    fprintf(out, "},\n \"tags\": {");
    bool first = true;
    for (auto &g : t.tags)
    {
        fprintf(out, "%s\"%s\": %ld", first ? "" : ", ", jesc(g.first).c_str(), g.second);
        first = false;
    }
    fprintf(out, "},\n \"samples\": [");
    std::set<string> seen;
    first = true;
    for (auto &g : t.samples)
        if (seen.insert(g.first).second)
        {
            fprintf(out, "%s{\"facet\": \"%s\", \"case\": \"%s\"}", first ? "" : ",\n  ", g.first.c_str(), g.second.c_str());
            first = false;
        }
    fprintf(out, "]}\n");
    fclose(out);
    return 0;
}

#ifdef PBT_FUZZ
// coverage-guided mode: the input bytes are the choice sequence, byte 0 selects the facet
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (n < 2)
        return 0;
    static bool quiet = [] {
        freopen("/dev/null", "w", stdout);
        return true;
    }();
    (void)quiet;
    auto &F = Registry::get().facets;
    int f = FacetOfByte(d[0]);
    Src s(d + 1, n - 1);
    Ctx c;
    Outcome o = RunCase(F[f], s, c);
    if (o.status == 1)
    {
        fprintf(stderr, "PBT FAILURE facet=%s id=%s %s\n", F[f].name.c_str(), o.id.c_str(), o.msg.c_str());
        abort();
    }
    return o.status == 2 ? -1 : 0;
}
#else
int main(int argc, char **argv)
{
    if (argc < 2)
        return 2;
    char tmpl[] = "/tmp/pbtXXXXXX";
    if (!mkdtemp(tmpl))
        return 2;
    gTmp = tmpl;
    int rc = 2;
    string cmd = argv[1];
    std::map<string, string> a;
    for (int i = 2; i + 1 < argc; i += 2)
        a[string(argv[i]).substr(2)] = argv[i + 1];
    if (cmd == "run")
        rc = CmdRun(a);
    else if (cmd == "list")
    {
        for (auto &f : Registry::get().facets)
            printf("%s\n", f.name.c_str());
        rc = 0;
    }
    else if (cmd == "replay" && argc > 2)
    {
        auto seq = ReadReplay(argv[2]);
        Isolated r = RunIsolated(seq, true);
        printf("%s\n%s\n%s\ncase: %s\n", r.failed ? "FAILS" : "passes", r.id.c_str(), r.msg.c_str(), r.desc.c_str());
        rc = r.failed ? 1 : 0;
    }
    else if (cmd == "frombytes" && argc > 2)
    { // libFuzzer artifact -> confirmed, shrunk replay file
        std::ifstream i(a["file"], std::ios::binary);
        std::stringstream b;
        b << i.rdbuf();
        string d = b.str();
        FILE *out = fopen(a["out"].c_str(), "w");
        if (d.size() >= 2 && out)
        {
            int f = FacetOfByte(uint8_t(d[0]));
            vector<uint64_t> ch = Record(f, Src(reinterpret_cast<const uint8_t *>(d.data()) + 1, d.size() - 1));
            rc = Report(out, a["replays"], {{f, ch}}, "fuzz", atof(a["shrink"].c_str()), 0);
            fclose(out);
        }
    }
    else if (cmd == "probe" && argc > 2)
    { // known finding: exit 1 while it fails, 0 when it no longer does
        rc = 4;
        for (auto &p : Registry::get().probes)
            if (p.key == argv[2])
            {
                string err = gTmp + "/perr";
                pid_t pid = fork();
                if (!pid)
                {
                    ChildSetup(err);
                    ArmCpu(kCaseCpuSeconds);
                    try
                    {
                        Ctx c;
                        p.fn(c);
                    }
                    catch (...)
                    {
                        _exit(1);
                    }
                    _exit(0);
                }
                int st;
                waitpid(pid, &st, 0);
                rc = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
            }
    }
    std::error_code ec;
    std::filesystem::remove_all(gTmp, ec); // the directory made by mkdtemp above
    return rc;
}
#endif

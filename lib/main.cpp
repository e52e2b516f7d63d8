// Runner for the laws registered in the program: generation, statistics,
// shrinking, replay. See pbt.hpp.
#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <exception>

using namespace pbt;

// The counter of the identities of the variables, defined in impl.cpp: what a
// process keeps from a case to the next.
long long pbt_ids();
void pbt_advance_ids(long long);

namespace {

enum Status : std::uint32_t { kNone = 0, kRunning, kPass, kDiscard, kFail, kHang };

struct Shared {
    volatile std::uint32_t law;
    volatile std::uint64_t index;
    volatile std::uint32_t status;
    volatile std::uint32_t ndraws;
    volatile std::int64_t ids;
    std::uint64_t draws[kMaxDraws + 8];
    char msg[8192];
    char notes[32768];
};

Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<Shared *>(p);
}

Shared *g_shared = nullptr;

void on_alarm(int) {
    if (g_shared) g_shared->status = kHang;
    _exit(78);
}

void arm(int seconds) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

void copy_str(char *dst, std::size_t cap, const std::string &s) {
    const std::size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

// Runs one case in this process; the draws are recorded in sh->draws.
Status run_case(const Law &law, Case &c, Shared *sh) {
    sh->status = kRunning;
    sh->msg[0] = 0;
    Status st = kPass;
    try {
        law.fn(c);
    } catch (const Discard &) {
        st = kDiscard;
    } catch (const Failure &f) {
        st = kFail;
        copy_str(sh->msg, sizeof sh->msg, f.msg);
    } catch (const std::exception &e) {
        st = kFail;
        copy_str(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what());
    } catch (...) {
        st = kFail;
        copy_str(sh->msg, sizeof sh->msg, "unexpected exception of unknown type");
    }
    sh->ndraws = static_cast<std::uint32_t>(c.draws());
    sh->status = st;
    return st;
}

std::uint64_t case_seed(std::uint64_t seed, const Law &law, std::uint64_t index) {
    return mix(mix(seed ^ 0x5bd1e995) ^ hash_str(law.name)) ^ mix(index * 2 + 1);
}

void limits() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    rlimit r{};
    r.rlim_cur = r.rlim_max = 6ull << 30;
    setrlimit(RLIMIT_AS, &r);
#endif
    rlimit core{};
    setrlimit(RLIMIT_CORE, &core);
    // ITIMER_PROF, because a stuck case may burn system time as well
    signal(SIGPROF, on_alarm);
}

std::string tail(const std::string &path, std::size_t n = 3000) {
    std::ifstream f(path);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    // the head of a sanitizer report is what matters
    return s.size() > n ? s.substr(0, n) : s;
}

// What ran in the process before a case, when it is needed for it to fail: the
// identities used up, and the previous cases of the worker.
struct Prelude {
    std::int64_t ids = 0;
    std::uint64_t seed = 0, last = 0, step = 1, count = 0; // `count` cases before index `last`
};

struct Attempt {
    bool fails = false;
    std::string msg, notes;
    std::vector<std::uint64_t> draws; // as recorded
};

// Runs one case in a forked child, from draws.
Attempt attempt(const Law &law, const std::vector<std::uint64_t> &draws, bool verbose, const std::string &errfile, const Prelude &pre = Prelude()) {
    static Shared *sh = new_shared();
    sh->status = kNone;
    sh->ndraws = 0;
    sh->msg[0] = sh->notes[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        limits();
        g_shared = sh;
        if (pre.ids) pbt_advance_ids(pre.ids);
        for (std::uint64_t k = pre.count; k > 0; --k) {
            arm(law.cpu_limit);
            Case c(case_seed(pre.seed, law, pre.last - k * pre.step), sh->draws);
            run_case(law, c, sh);
        }
        arm(law.cpu_limit);
        memset(sh->draws, 0, sizeof sh->draws);
        sh->ndraws = 0;
        Case c(draws, sh->draws);
        c.verbose = verbose;
        run_case(law, c, sh);
        if (verbose) copy_str(sh->notes, sizeof sh->notes, c.notes.str());
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    Attempt a;
    if (sh->status == kFail && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        a.fails = true;
        a.msg = sh->msg;
        a.notes = sh->notes;
        a.draws.assign(sh->draws, sh->draws + sh->ndraws);
    } else if (sh->status == kHang) {
        a.fails = true;
        a.msg = "more than " + std::to_string(law.cpu_limit) + " s of CPU time in one case";
        a.draws = draws;
    } else if (sh->status == kRunning || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        a.fails = true;
        a.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"
                                : "process ended with status " + std::to_string(WEXITSTATUS(st));
        a.msg += ": " + tail(errfile);
        a.draws = draws;
    }
    return a;
}

using Draws = std::vector<std::uint64_t>;

bool simpler(const Draws &a, const Draws &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

Draws shrink(const Law &law, Draws best, const std::string &errfile, int budget, double max_seconds, const Prelude &pre) {
    timeval t0;
    gettimeofday(&t0, nullptr);
    int used = 0;
    auto out_of_budget = [&] {
        timeval t;
        gettimeofday(&t, nullptr);
        return used >= budget || (t.tv_sec - t0.tv_sec) > max_seconds;
    };
    auto attempt_is_better = [&](Draws d) {
        if (out_of_budget()) return false;
        while (!d.empty() && d.back() == 0) d.pop_back();
        if (!simpler(d, best)) return false;
        ++used;
        Attempt a = attempt(law, d, false, errfile, pre);
        if (!a.fails) return false;
        Draws r = a.draws;
        while (!r.empty() && r.back() == 0) r.pop_back();
        best = simpler(r, d) ? r : d;
        return true;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && !out_of_budget()) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); ; len /= 2) {
            for (std::size_t i = best.size(); i-- > 0 && !out_of_budget(); ) {
                if (i + len > best.size()) continue;
                Draws d = best;
                d.erase(d.begin() + i, d.begin() + i + len);
                if (attempt_is_better(d)) { progress = true; i = std::min(i, best.size()); }
            }
            if (len <= 1) break;
        }
        for (std::size_t len : {16, 4, 2}) {
            for (std::size_t i = 0; i + len <= best.size() && !out_of_budget(); ++i) {
                Draws d = best;
                if (std::all_of(d.begin() + i, d.begin() + i + len, [](std::uint64_t x) { return x == 0; })) continue;
                std::fill(d.begin() + i, d.begin() + i + len, 0);
                if (attempt_is_better(d)) progress = true;
            }
        }
        for (std::size_t i = 0; i < best.size() && !out_of_budget(); ++i) {
            if (best[i] == 0) continue;
            Draws d = best;
            d[i] = 0;
            if (attempt_is_better(d)) { progress = true; continue; }
            std::uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && !out_of_budget()) {
                d = best;
                if (i >= d.size()) break;
                const std::uint64_t mid = lo + (hi - lo) / 2;
                d[i] = mid;
                if (attempt_is_better(d)) { hi = mid; progress = true; }
                else lo = mid;
            }
            // a shorter list: lower the length and drop what followed
            for (std::size_t k = 1; k <= 6; ++k) {
                if (i >= best.size() || best[i] == 0) break;
                for (std::size_t off = 1; off <= 8 && i + off + k <= best.size(); ++off) {
                    d = best;
                    d[i] -= 1;
                    d.erase(d.begin() + i + off, d.begin() + i + off + k);
                    if (attempt_is_better(d)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}

std::string json_escape(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

struct LawStats {
    std::uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
    std::map<std::string, std::uint64_t> labels;
};

int usage() {
    std::cerr << "usage: run --seed S --tier quick|thorough --dir DIR --out OUT.json [--workers N] [--scale X] [--only LAW]\n"
                 "       replay --file F --dir DIR\n"
                 "       list\n";
    return 2;
}

struct Replay {
    std::string law, msg;
    Draws draws;
    Prelude pre;
};

Replay read_replay(const std::string &path) {
    Replay r;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream ss(line);
        std::string key;
        ss >> key;
        if (key == "law:") ss >> r.law;
        else if (key == "ids:") ss >> r.pre.ids;
        else if (key == "before:") ss >> r.pre.seed >> r.pre.last >> r.pre.step >> r.pre.count;
        else if (key == "draws:") {
            std::uint64_t v;
            while (ss >> v) r.draws.push_back(v);
        } else if (key == "---") break;
    }
    return r;
}

void write_replay(const std::string &path, const std::string &prop, const Law &law, const Draws &d, const Attempt &a, const Prelude &pre = Prelude()) {
    std::ofstream f(path);
    f << "property: " << prop << "\nlaw: " << law.name;
    if (pre.ids) f << "\nids: " << pre.ids;
    if (pre.count) f << "\nbefore: " << pre.seed << " " << pre.last << " " << pre.step << " " << pre.count;
    f << "\ndraws:";
    for (auto v : d) f << " " << v;
    f << "\n---\n" << law.about << "\n\nFAILURE: " << a.msg << "\n\nCASE:\n" << a.notes << "\n";
}

} // namespace

#ifdef PBT_FUZZER

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *data, std::size_t size) {
    static Shared *sh = new_shared();
    static const char *only = getenv("PBT_LAW");
    if (size == 0) return 0;
    std::vector<const Law *> v;
    for (const Law &l : laws()) if (!l.nondet && !l.multithread && (!only || l.name == only)) v.push_back(&l);
    if (v.empty()) return 0;
    const Law &law = *v[data[0] % v.size()];
    Case c(data + 1, size - 1, sh->draws);
    // draws are flushed to a file by the crash handler below
    struct Info { const Law *law; Shared *sh; };
    static Info info;
    info = {&law, sh};
    Status st = run_case(law, c, sh);
    if (st == kFail) {
        const char *out = getenv("PBT_FUZZ_OUT");
        if (out) {
            Attempt a;
            a.msg = sh->msg;
            write_replay(out, "?", law, Draws(sh->draws, sh->draws + sh->ndraws), a);
        }
        std::cerr << "PBT-FAILURE law " << law.name << ": " << sh->msg << "\n";
        std::cerr.flush();
        abort();
    }
    return 0;
}

#else

int main(int argc, char **argv) {
    std::map<std::string, std::string> opt;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto get = [&](const std::string &k, const std::string &d) { return opt.count(k) ? opt[k] : d; };
    std::sort(laws().begin(), laws().end(), [](const Law &a, const Law &b) { return a.name < b.name; });
    const std::string dir = get("--dir", ".");
    const std::string prop = get("--property", "?");
    mkdir(dir.c_str(), 0755);

    if (cmd == "list") {
        for (const Law &l : laws()) std::cout << l.name << " " << l.quick << " " << l.thorough << " " << l.about << "\n";
        return 0;
    }

    if (cmd == "replay") {
        Replay r = read_replay(get("--file", ""));
        for (const Law &l : laws()) {
            if (l.name != r.law) continue;
            Attempt a = attempt(l, r.draws, true, dir + "/replay.err", r.pre);
            for (int k = 0; l.nondet && !a.fails && k < 30; ++k) a = attempt(l, r.draws, true, dir + "/replay.err", r.pre);
            std::cout << a.notes << "\n" << (a.fails ? "FAILS: " + a.msg : std::string("passes")) << "\n";
            return a.fails ? 1 : 0;
        }
        std::cerr << "no law " << r.law << "\n";
        return 2;
    }

    if (cmd != "run") return usage();

    const std::uint64_t seed = std::stoull(get("--seed", "1"));
    const bool thorough = get("--tier", "quick") == "thorough";
    const int workers = std::stoi(get("--workers", "8"));
    const double scale = std::stod(get("--scale", "1"));
    const std::string only = get("--only", "");

    std::vector<Law> L;
    for (const Law &l : laws()) if (only.empty() || l.name == only) L.push_back(l);
    auto count = [&](const Law &l) { return std::max<long>(1, static_cast<long>((thorough ? l.thorough : l.quick) * scale)); };

    std::vector<Shared *> sh(workers);
    std::vector<pid_t> pids(workers);
    for (int w = 0; w < workers; ++w) sh[w] = new_shared();
    fflush(nullptr);
    for (int w = 0; w < workers; ++w) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) {
            Shared *s = sh[w];
            const std::string base = dir + "/w" + std::to_string(w);
            int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            limits();
            g_shared = s;
            std::ofstream stats(base + ".stats"), hashes(base + ".hashes", std::ios::binary);
            for (std::size_t li = 0; li < L.size(); ++li) {
                const Law &law = L[li];
                // a law with threads of its own is run by one worker only
                if (law.multithread && static_cast<int>(li) % workers != w) continue;
                LawStats ls;
                std::unordered_set<std::uint64_t> seen;
                int samples = 0;
                const long n = count(law);
                bool failed = false;
                for (long i = law.multithread ? 0 : w; i < n && !failed; i += law.multithread ? 1 : workers) {
                    s->law = static_cast<std::uint32_t>(li);
                    s->index = static_cast<std::uint64_t>(i);
                    s->ids = pbt_ids();
                    arm(law.cpu_limit);
                    Case c(case_seed(seed, law, i), s->draws);
                    Status st = run_case(law, c, s);
                    ++ls.evaluations;
                    if (st == kDiscard) { ++ls.discarded; continue; }
                    if (st == kFail) {
                        failed = true;
                        std::ofstream f(base + ".fail", std::ios::app);
                        f << li << " " << i << " " << s->ids << " " << json_escape(s->msg) << "\n";
                        break;
                    }
                    for (auto &kv : c.labels()) ++ls.labels[kv.first];
                    if (c.is_nontrivial()) {
                        ++ls.nontrivial;
                        std::uint64_t h = hash_str(law.name);
                        for (std::size_t k = 0; k < c.draws(); ++k) h = mix(h ^ s->draws[k]);
                        if (seen.insert(h).second) hashes.write(reinterpret_cast<char *>(&h), 8);
                        if (samples < 1 && w < 3 && i / workers >= samples * 7) {
                            ++samples;
                            Draws d(s->draws, s->draws + c.draws());
                            Case c2(d, s->draws);
                            c2.verbose = true;
                            run_case(law, c2, s);
                            std::ofstream f(base + ".samples", std::ios::app);
                            f << law.name << "\t" << json_escape(c2.notes.str().substr(0, 1500)) << "\n";
                        }
                    }
                }
                arm(0);
                stats << "L " << li << " " << ls.evaluations << " " << ls.discarded << " " << ls.nontrivial << "\n";
                for (auto &kv : ls.labels) stats << "B " << li << " " << kv.second << " " << kv.first << "\n";
                stats.flush();
                if (failed && getenv("PBT_STOP_FIRST")) break;
            }
            s->status = kNone;
            stats.close();
            hashes.close();
            _exit(0);
        }
        pids[w] = pid;
    }

    struct Candidate { std::size_t law; std::uint64_t index; std::string how; std::int64_t ids; std::string msg; };
    std::vector<Candidate> cand;
    std::string errors;
    for (int w = 0; w < workers; ++w) {
        int st = 0;
        while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) ;
        const std::string base = dir + "/w" + std::to_string(w);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (sh[w]->status == kRunning || sh[w]->status == kHang) {
                cand.push_back({sh[w]->law, sh[w]->index, "crash", sh[w]->ids, ""});
            } else {
                errors += "worker " + std::to_string(w) + " ended abnormally outside a case (status " + std::to_string(st) + "): " + tail(base + ".err", 500) + "\n";
            }
        }
        std::ifstream f(base + ".fail");
        std::size_t li; std::uint64_t idx; std::int64_t ids; std::string msg;
        while (f >> li >> idx >> ids && std::getline(f, msg)) cand.push_back({li, idx, "fail", ids, msg});
    }

    // merge the statistics
    std::vector<LawStats> total(L.size());
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::pair<std::string, std::string>> samples;
    for (int w = 0; w < workers; ++w) {
        const std::string base = dir + "/w" + std::to_string(w);
        std::ifstream f(base + ".stats");
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream ss(line);
            char k; std::size_t li;
            ss >> k >> li;
            if (k == 'L') {
                std::uint64_t a, b, c;
                ss >> a >> b >> c;
                total[li].evaluations += a; total[li].discarded += b; total[li].nontrivial += c;
            } else {
                std::uint64_t a; std::string name;
                ss >> a; std::getline(ss, name);
                total[li].labels[name.substr(1)] += a;
            }
        }
        std::ifstream h(base + ".hashes", std::ios::binary);
        std::uint64_t v;
        while (h.read(reinterpret_cast<char *>(&v), 8)) distinct.insert(v);
        std::ifstream sf(base + ".samples");
        while (std::getline(sf, line)) {
            auto t = line.find('\t');
            samples.push_back({line.substr(0, t), line.substr(t + 1)});
        }
    }

    // shrink and confirm: first failing index of each law
    std::sort(cand.begin(), cand.end(), [](const Candidate &a, const Candidate &b) {
        return std::make_pair(a.law, a.index) < std::make_pair(b.law, b.index);
    });
    struct Violation { std::string law, msg, replay; };
    std::vector<Violation> viol;
    std::set<std::size_t> done;
    for (const Candidate &cd : cand) {
        if (done.count(cd.law) || viol.size() >= 3) continue;
        const Law &law = L[cd.law];
        const std::string errf = dir + "/attempt.err";
        // regenerate the draws of the case in a child, since it may crash
        static Shared *s = new_shared();
        s->ndraws = 0;
        memset(s->draws, 0, sizeof s->draws);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            limits();
            g_shared = s;
            arm(law.cpu_limit);
            Case c(case_seed(seed, law, cd.index), s->draws);
            run_case(law, c, s);
            _exit(0);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        Draws d(s->draws, s->draws + (s->ndraws ? s->ndraws : kMaxDraws));
        while (!d.empty() && d.back() == 0) d.pop_back();
        const int need = 3;
        Prelude pre;
        auto confirm = [&](const Draws &dd, Attempt &last) {
            int ok = 0;
            const int tries = law.nondet ? 40 : need;
            for (int k = 0; k < tries && ok < (law.nondet ? 1 : need); ++k) {
                last = attempt(law, dd, true, errf, pre);
                if (last.fails) ++ok;
                else if (!law.nondet) break;
            }
            return ok >= (law.nondet ? 1 : need);
        };
        Attempt last;
        bool repeats = confirm(d, last);
        if (!repeats && law.nondet) {
            // the evidence of such a law (e.g. two equal ids) is conclusive
            last.msg = "observed during the run, not reproduced in 40 replays (depends on thread scheduling)";
        } else if (!repeats) {
            // it depends on what the process did before: the identities already
            // used, the previous cases
            const std::uint64_t all = cd.index / workers;
            for (int k = 0; k < 8 && !repeats; ++k) {
                pre = Prelude();
                if (k == 0) pre.ids = cd.ids;
                else { pre.count = k == 7 ? all : std::min<std::uint64_t>(all, 1ull << (2 * k)); pre.seed = seed; pre.last = cd.index; pre.step = workers; }
                repeats = confirm(d, last);
                if (pre.count == all && k) break;
            }
            if (!repeats) {
                pre = Prelude();
                if (cd.how == "fail" && cd.msg.find("bad_alloc") == std::string::npos) {
                    // a wrong result is one, also if it is not there every time
                    int again = 0;
                    for (int k = 0; k < 40 && !again; ++k) { last = attempt(law, d, true, errf); again += last.fails; }
                    if (!again) { last.fails = true; last.msg = "observed once during the run, not reproduced alone (it depends on what ran before or on memory that was not initialized): " + cd.msg; }
                    done.insert(cd.law);
                    const std::string path = dir + "/" + prop + "-" + law.name + ".replay";
                    write_replay(path, prop, law, d, last);
                    viol.push_back({law.name, last.msg, path});
                } else {
                    errors += "law " + law.name + " index " + std::to_string(cd.index) + ": failure not reproduced in 3 replays\n";
                }
                continue;
            }
        }
        if (!law.nondet) {
            Draws sm = shrink(law, d, errf, last.msg.find("CPU time") != std::string::npos ? 6 : pre.count > 64 ? 100 : 2500, 45, pre);
            Attempt la;
            if (confirm(sm, la)) { d = sm; last = la; }
        }
        done.insert(cd.law);
        const std::string path = dir + "/" + prop + "-" + law.name + ".replay";
        write_replay(path, prop, law, d, last, pre);
        viol.push_back({law.name, last.msg, path});
    }

    std::ofstream o(get("--out", dir + "/out.json"));
    std::uint64_t ev = 0, disc = 0;
    for (auto &t : total) { ev += t.evaluations; disc += t.discarded; }
    o << "{\"evaluations\": " << ev << ", \"discarded\": " << disc << ", \"distinct_nontrivial\": " << distinct.size() << ",\n \"laws\": [";
    for (std::size_t i = 0; i < L.size(); ++i) {
        o << (i ? ",\n  " : "\n  ") << "{\"law\": \"" << L[i].name << "\", \"about\": \"" << json_escape(L[i].about)
          << "\", \"evaluations\": " << total[i].evaluations << ", \"discarded\": " << total[i].discarded
          << ", \"nontrivial\": " << total[i].nontrivial << ", \"labels\": {";
        bool first = true;
        for (auto &kv : total[i].labels) {
            o << (first ? "" : ", ") << "\"" << json_escape(kv.first) << "\": " << kv.second;
            first = false;
        }
        o << "}}";
    }
    o << "],\n \"samples\": [";
    std::map<std::string, int> per;
    bool first = true;
    for (auto &s : samples) {
        if (per[s.first]++ >= 2) continue;
        o << (first ? "\n  " : ",\n  ") << "{\"law\": \"" << s.first << "\", \"case\": \"" << s.second << "\"}";
        first = false;
    }
    o << "],\n \"violations\": [";
    for (std::size_t i = 0; i < viol.size(); ++i)
        o << (i ? ", " : "") << "{\"law\": \"" << viol[i].law << "\", \"replay\": \"" << viol[i].replay << "\", \"message\": \"" << json_escape(viol[i].msg) << "\"}";
    o << "],\n \"errors\": \"" << json_escape(errors) << "\"}\n";
    o.close();
    return viol.empty() ? (errors.empty() ? 0 : 3) : 1;
}

#endif

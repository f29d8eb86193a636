// C20: idle data is flushed without help.
#include "common.h"
#define F "c20.cpp"
static unsigned logged; static xtr::sink* S[3]; static bool open_[3];
static void settle()
{
    xsym_quiesce();                                 // the background thread has nothing left to do
    unsigned lines = 0; for (size_t i = 0; i < g.n; i++) lines += g.out[i] == '\n';
    xassert(lines == logged && (g.n == 0 || g.out[g.n - 1] == '\n'), "everything logged was handed to the back-end by itself");
    xassert(g.n_flushed == g.n, "and flushed");
    xsym_reach("settled");
}
static void log(xtr::sink& s)
{
    switch (xsym_choose("kind", 3)) {
        case 0: XTR_LOG(s, "x"); logged++; break;
        case 1: XTR_LOG(s, "{} {}", 'c', std::string_view("abcdefghijklmnop", 16)); logged++; break;
        case 2: for (int i = 0; i < 3; i++) { XTR_LOG(s, "{}", i); logged++; } break;
    }
}
extern "C" void c20_history()
{
    xsym_set_spin(40); g.bufsize = xsym_param("small", 0) ? 40 : STORE_BUF;
    auto lg = make_logger();
    const int ns = (int)xsym_param("sinks", 2);
    for (int i = 0; i < ns; i++) S[i] = new xtr::sink();
    const uint64_t opened = xsym_choose("opened", (uint64_t)ns + 1);
    for (int i = 0; i < (int)opened; i++) { lg->register_sink(*S[i], i ? "B" : "A"); open_[i] = true; }
    for (uint64_t k = 0; k < xsym_param("k", 3); k++) {
        const uint64_t a = xsym_choose("sink", (uint64_t)ns);
        switch (xsym_choose("op", 4)) {
            case 0: if (open_[a]) log(*S[a]); else { lg->register_sink(*S[a], "N"); open_[a] = true; log(*S[a]); } break;
            case 1: if (open_[a]) log(*S[a]); S[a]->close(); open_[a] = false; xsym_reach("closed"); break;
            case 2: settle(); break;
            case 3: for (int i = 0; i < ns; i++) if (open_[i]) { XTR_LOG(*S[i], "all"); logged++; } break;
        }
    }
    settle();
    for (int i = 0; i < ns; i++) delete S[i];
    settle();                                       // only the logger itself is left
    lg.reset();
    xsym_reach("done");
}
// A second thread logs and closes while the first falls idle.
static void other(void*) { log(*S[1]); if (xsym_choose("close", 2)) S[1]->close(); }
extern "C" void c20_two()
{
    xsym_set_spin(40);
    auto lg = make_logger();
    for (int i = 0; i < 2; i++) { S[i] = new xtr::sink(); lg->register_sink(*S[i], i ? "B" : "A"); }
    uint64_t th = xsym_spawn(other, nullptr);
    XTR_LOG(*S[0], "x");
    if (xsym_choose("close", 2)) S[0]->close();
    xsym_join(th); logged++;
    settle();
    for (int i = 0; i < 2; i++) delete S[i];
    lg.reset();
    xsym_reach("done");
}

// C17, C02: sink names of any length and content, given in every way.
#define OUT_MAX 32768
#include "common.h"
#define F "c17names.cpp"
static Text t; static char N1[1101], N2[1101];
static void make(char* p, size_t n, char base, const char* what) { for (size_t i = 0; i < n; i++) p[i] = (char)(base + i % 20); p[n] = 0; if (n) { p[n - 1] = (char)xsym_u8(what); xsym_assume(p[n - 1] != 0 && p[n - 1] != '\n'); if (n > 2) p[n / 2] = "{} %\\"[xsym_choose("odd", 5)]; } }
extern "C" void c17_names()
{
    static const uint16_t ls[] = {0, 1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000}; const uint64_t l1 = xsym_choose("length", 14);
    make(N1, ls[l1], 'a', "last"); make(N2, ls[(l1 * 5 + 3) % 14], 'A', "last of the other");
    auto lg = make_logger();
    {
        auto a = lg->get_sink(N1); XTR_LOG(a, "1"); t.line("I ", N1, F, __LINE__) << "1\n"; a.sync();
        switch (xsym_choose("how", 5)) {
            case 0: { xtr::sink b; lg->register_sink(b, N2); XTR_LOG(b, "2"); t.line("I ", N2, F, __LINE__) << "2\n"; break; }
            case 1: { xtr::sink b(a); XTR_LOG(b, "2"); t.line("I ", N1, F, __LINE__) << "2\n"; break; }
            case 2: { a.set_name(N2); XTR_LOG(a, "2"); t.line("I ", N2, F, __LINE__) << "2\n"; xtr::sink b; b = a; XTR_LOG(b, "3"); t.line("I ", N2, F, __LINE__) << "3\n"; b.sync(); a.set_name(N1); XTR_LOG(b, "4"); t.line("I ", N2, F, __LINE__) << "4\n"; break; }
            case 3: { auto b = lg->get_sink(N2); b.set_name(N1); a.set_name(N2); a.sync(); XTR_LOG(b, "2"); t.line("I ", N1, F, __LINE__) << "2\n"; b.sync(); a.set_name(N1); break; }
            case 4: { a.close(); lg->register_sink(a, N2); XTR_LOG(a, "2"); t.line("I ", N2, F, __LINE__) << "2\n"; a.close(); lg->register_sink(a, N1); break; }
        }
        if (xsym_choose("again", 2)) { a.sync(); a.set_name(N1); XTR_LOG(a, "e"); t.line("I ", N1, F, __LINE__) << "e\n"; }
    }
    lg.reset(); EXPECT_OUT(t, "every line carries the name in force when it was logged"); xsym_reach("done");
}

// C04: string arguments are always sanitized.
#include "common.h"
#define F "c04.cpp"

static void expect_escaped(Text& t, const uint8_t* b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        uint8_t c = b[i];
        if (c >= 0x20 && c <= 0x7e && c != '\\') t << (char)c;
        else {
            uint8_t h = c >> 4, l = c & 15;
            t << "\\x" << (char)(h < 10 ? '0' + h : 'A' + h - 10) << (char)(l < 10 ? '0' + l : 'A' + l - 10);
        }
    }
}
// NUL-terminated routes see the bytes up to the first NUL
static size_t cut(const uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (b[i] == 0) return i; return n; }

extern "C" void c04_all()
{
    const size_t n = xsym_param("n", 2);
    uint8_t b[8] = {}, orig[8];
    xsym_bytes(b, n, "byte"); memcpy(orig, b, sizeof b);
    const char* cs = (const char*)b; size_t z = n;
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        char arr[3] = {};
        static std::string keep; keep.assign(cs, n);      // outlives the statement, for nocopy
        static char keepz[8]; memcpy(keepz, b, 8);
        switch (xsym_choose("route", 17)) {
            case 0: z = cut(b, n); XTR_LOG(s, "[{}]", cs); t.line("I ", "N", F, __LINE__); break;
            case 1: z = cut(b, n); XTR_LOG(s, "[{}]", (char*)b); t.line("I ", "N", F, __LINE__); break;
            case 2: if (n > 2) z = 2; memcpy(arr, b, z); z = cut(b, z); XTR_LOG(s, "[{}]", arr); t.line("I ", "N", F, __LINE__); break;
            case 3: { std::string q(cs, n); XTR_LOG(s, "[{}]", q); t.line("I ", "N", F, __LINE__); break; }
            case 4: { const std::string q(cs, n); XTR_LOG(s, "[{}]", q); t.line("I ", "N", F, __LINE__); break; }
            case 5: { std::string q(cs, n); XTR_LOG(s, "[{}]", std::move(q)); t.line("I ", "N", F, __LINE__); break; }
            case 6: { XTR_LOG(s, "[{}]", std::string(cs, n)); t.line("I ", "N", F, __LINE__); break; }
            case 7: { std::string_view q(cs, n); XTR_LOG(s, "[{}]", q); t.line("I ", "N", F, __LINE__); break; }
            case 8: { const std::string_view q(cs, n); XTR_LOG(s, "[{}]", q); t.line("I ", "N", F, __LINE__); break; }
            case 9: { XTR_LOG(s, "[{}]", std::string_view(cs, n)); t.line("I ", "N", F, __LINE__); break; }
            case 10: z = cut(b, n); XTR_LOG(s, "[{}]", nocopy((const char*)keepz)); t.line("I ", "N", F, __LINE__); break;
            case 11: { XTR_LOG(s, "[{}]", nocopy(keep)); t.line("I ", "N", F, __LINE__); break; }
            case 12: { XTR_LOG(s, "[{}]", nocopy(std::string_view(keep))); t.line("I ", "N", F, __LINE__); break; }
            case 13: { std::string q(cs, n); XTR_TRY_LOG(s, "[{}]", std::move(q)); t.line("I ", "N", F, __LINE__); break; }
            case 14: { z = cut(b, n); XTR_TRY_LOGL(error, s, "[{}]", cs); t.line("E ", "N", F, __LINE__); break; }
            case 15: { const std::string q(cs, n); XTR_LOG(s, "[{}]", std::move(q)); t.line("I ", "N", F, __LINE__); break; }
            case 16: { XTR_LOG_TS(s, "0", "[{}]", std::string_view(cs, n)); t.line("I ", "N", F, __LINE__, "0"); break; }
        }
        t << "["; expect_escaped(t, orig, z); t << "]\n";
    }
    lg.reset();
    EXPECT_OUT(t, "the string argument appears sanitized");
    xsym_reach("done");
}
// several strings in one statement, each sanitized, none affecting another
extern "C" void c04_several()
{
    uint8_t b[4]; xsym_bytes(b, 4, "byte");
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        char z[2] = {(char)b[2], 0};
        XTR_LOG(s, "{}|{}|{}|{}", std::string_view((char*)b, 1), std::string((char*)b + 1, 1), z, b[3] == 0);
        t.line("I ", "N", F, __LINE__ - 1);
        expect_escaped(t, b, 1); t << "|"; expect_escaped(t, b + 1, 1); t << "|"; expect_escaped(t, b + 2, cut(b + 2, 1)); t << "|" << (b[3] == 0 ? "true" : "false") << "\n";
    }
    lg.reset();
    EXPECT_OUT(t, "every string argument appears sanitized");
    xsym_reach("done");
}
// Longer strings: any byte at any place of strings of many lengths, among printable bytes or next to an escaped one.
extern "C" void c04_place()
{
    static const uint16_t ls[] = {1, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 200};
    const size_t n = ls[xsym_choose("length", xsym_param("nl", 13))], p = n <= 40 ? xsym_choose("place", n) : (size_t)(xsym_choose("place", 5) * (n - 1) / 4);
    static uint8_t b[256], orig[256]; memset(b, 0, sizeof b); memset(b, 'a', n); static const uint8_t near[] = {'a', '\n', 0xff, '\\'};
    if (n > 1) b[p ? p - 1 : 1] = near[xsym_choose("near", 4)];
    xsym_bytes(b + p, 1, "byte"); memcpy(orig, b, sizeof b);
    const char* cs = (const char*)b; size_t z = n; auto lg = make_logger(); static Text t;
    {
        auto s = lg->get_sink("N"); static std::string keep; keep.assign(cs, n); static char keepz[256]; memcpy(keepz, b, 256);
        switch (xsym_choose("route", 6)) {
            case 0: z = cut(b, n); XTR_LOG(s, "[{}]", cs); t.line("I ", "N", F, __LINE__); break;
            case 1: XTR_LOG(s, "[{}]", std::string(cs, n)); t.line("I ", "N", F, __LINE__); break;
            case 2: XTR_LOG(s, "[{}]", std::string_view(cs, n)); t.line("I ", "N", F, __LINE__); break;
            case 3: z = cut(b, n); XTR_LOG(s, "[{}]", nocopy((const char*)keepz)); t.line("I ", "N", F, __LINE__); break;
            case 4: XTR_LOG(s, "[{}]", nocopy(std::string_view(keep))); t.line("I ", "N", F, __LINE__); break;
            case 5: { const std::string q(cs, n); XTR_TRY_LOG(s, "[{}]", q); t.line("I ", "N", F, __LINE__); break; }
        }
        memset(b, 'X', sizeof b);
        t << "["; expect_escaped(t, orig, z); t << "]\n";
    }
    lg.reset();
    EXPECT_OUT(t, "the string argument appears sanitized");
    xsym_reach("done");
}

// C13: the reopen command.
#include "common.h"
#include "sock.h"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
using namespace xtr::detail;
static size_t at_reopen[4]; static unsigned formatted_at[4], formatted; static int result;
struct line8 { uint64_t v; };
template<> struct fmt::formatter<line8> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const line8& r, C& c) const { xsym_atomic_begin(); formatted++; xsym_atomic_end(); auto o = c.out(); char b[8]; memcpy(b, &r.v, 8); for (char x : b) *o++ = x; return o; }
};
extern "C" char* strerror(int e) { return (char*)(e == EACCES ? "denied" : "other"); }
struct rot_storage : mem_storage {
    int reopen() noexcept override { xassert(g.n_flushed == g.n, "data logged so far is flushed to the old file first"); xsym_atomic_begin(); at_reopen[g.reopens] = g.n; formatted_at[g.reopens] = formatted; xsym_atomic_end(); g.reopens++; return result; }
};
extern "C" void c13_command()
{
    cpu_init(); xsym_set_spin(40); static Text t;
    auto lg = std::make_unique<xtr::logger>(std::make_unique<rot_storage>(), test_clock(), "/cmd");
    {
        auto s = lg->get_sink("N"); unsigned want = 0;
        for (uint64_t i = 0; i < xsym_param("k", 2); i++) {
            int c = -1; if (xsym_param("early", 0) || xsym_choose("early", 2)) { { Atomic a; c = client_connect(); client_progress(); } xsym_quiesce(); }     // connected before the statement
            uint64_t v = xsym_u64("v"); XTR_LOG(s, "{}", line8{v}); t.line("I ", "N", "c13cmd.cpp", __LINE__) << std::string_view((char*)&v, 8) << '\n';
            const bool settle = xsym_choose("settle", 2); if (settle) xsym_quiesce();
            if (!xsym_choose("reopen", 2)) { if (c >= 0) { Atomic a; client_close(c); client_progress(); } continue; }
            { Atomic a; result = xsym_choose("fails", 2) ? EACCES : 0; if (c < 0) c = client_connect(); frame<reopen> f; client_send(c, &f, sizeof f); client_progress(); }
            if (xsym_choose("sink", 2)) { auto o = lg->get_sink("O"); xsym_quiesce(); } else xsym_quiesce();   // the control sink may be in use too
            want++; xassert(g.reopens == want, "the storage is reopened once per request");
            const unsigned k = formatted_at[want - 1]; xassert(k + !settle >= t.lines, "what was logged before is written before"); xassert(at_reopen[want - 1] == (k ? t.end_of(k - 1) : 0), "what was logged before is in the old file, what is logged later in the new");
            Conn& x = conns[c]; xassert(x.n_out == 1 && !x.srv_open, "the request is answered"); uint32_t id; memcpy(&id, x.out[0].d, 4);
            if (result) { xassert(id == uint32_t(message_id::error) && strcmp(x.out[0].d + 4, "denied") == 0, "a failure to reopen is reported to the client"); xsym_reach("failed"); }
            else { xassert(id == uint32_t(message_id::success), "success is reported to the client"); xsym_reach("reopened"); }
        }
        xassert(g.reopens == want, "the storage is reopened only on request");
    }
    lg.reset();
    EXPECT_OUT(t, "nothing is lost");
    xsym_reach("done");
}

// C13: sites and values collected on a node
#include "hila.h"
#include "verif.h"
using namespace v;
static int my_rank, n_ranks = 1;
namespace hila {
int myrank() { return my_rank; }
int number_of_nodes() { return n_ranks; }
}
int rank0_block_level_ = 0;
static lattice_struct L;
#ifdef REPLAY
Lattice lattice;
#endif
#ifndef REPLAY
static size_t resized[2], nresize; static void *which[2];
STUB(rsites, "^std::vector<SiteIndex.*>::resize\\(unsigned long\\)")
extern "C" void stub_rsites(void *p, size_t n) { ensure(nresize < 2, "resized once"); if (nresize >= 2) __v_stop(); which[nresize] = p; resized[nresize++] = n; }
STUB(rvalues, "^std::vector<double.*>::resize\\(unsigned long\\)")
extern "C" void stub_rvalues(void *p, size_t n) { ensure(nresize < 2, "resized once"); if (nresize >= 2) __v_stop(); which[nresize] = p; resized[nresize++] = n; }
struct W { // a selection during a site loop
    alignas(16) char store[sizeof(SiteValueSelect<double>)]; SiteValueSelect<double> &r = *reinterpret_cast<SiteValueSelect<double> *>(store);
    size_t V, c, p; SiteIndex *sites; double *values;
    W() {
        V = range("volume", 1, 1ll << 31); L.mynode.volume = V; lattice.set_lattice_pointer(&L);
        sites = (SiteIndex *)array<size_t>("sites", V); values = array<double>("values", V); void **q = (void **)&r.sites; q[0] = sites; q[1] = q[2] = sites + V; q = (void **)&r.values; q[0] = values; q[1] = q[2] = values + V;
        c = range("collected", 0, 1ll << 31); require(c <= V); p = c ? sites[c - 1].value : SIZE_MAX; r.current_index = c; r.previous_site = p; r.nmax = range("nmax", 0, 1ll << 31); r.n_overflow = 0; r.auto_join = false; r.joined = false; nresize = 0;
    }
};
static void select_(bool val) {
    W w; const size_t s = range("site", 0, 1ll << 60); const double x = any<double>("value"); const bool again = (w.c > 0) & (s == w.p); require(again | (w.c < w.V)); // a new site: there are at most V of them
    const size_t k = range("other", 0, 1ll << 31); require(k < w.c); const bool replaced = again & (k + 1 == w.c); const size_t s0 = w.sites[k].value; const double v0 = w.values[k];
    if (val) w.r.select_site_value(SiteIndex(s), x); else w.r.select_site(SiteIndex(s));
    const size_t n = again ? w.c : w.c + 1; ensure(w.r.current_index == n, "a site counts once"); ensure(w.sites[n - 1].value == s, "the site is stored"); if (val) eq(w.values[n - 1], x, "the value is stored with its site");
    if (!replaced) { ensure(w.sites[k].value == s0, "earlier sites are kept"); eq(w.values[k], v0, "earlier values are kept"); } ensure(w.r.previous_site == s, "the last site is remembered"); cover("end");
}
static void select_first() { W w; require(w.c == 0); const size_t s = range("site", 0, 1ll << 60); const double x = any<double>("value"); w.r.select_site_value(SiteIndex(s), x); ensure(w.r.current_index == 1, "a site counts once"); ensure(w.sites[0].value == s, "the site is stored"); eq(w.values[0], x, "the value is stored with its site"); ensure(w.r.previous_site == s, "the last site is remembered"); cover("end"); }
static void endloop(bool val) {
    W w; const size_t c = w.c, m = w.r.nmax, n = c > m ? m : c; if (val) w.r.endloop_action(); else w.r.SiteSelect::endloop_action();
    ensure(nresize == (val ? 2 : 1), "every array is cut"); for (size_t i = 0; i < nresize; i++) { ensure(resized[i] == n, "collected sites up to the limit"); ensure((which[i] == &w.r.sites) | (val & (which[i] == &w.r.values)), "own arrays"); } if (nresize == 2) ensure(which[0] != which[1], "both arrays");
    ensure(w.r.n_overflow == c - n, "number of sites over the limit"); ensure(!w.r.auto_join, "options are kept"); cover("end");
}
static void setup_() {
    W w; w.r.joined = any<bool>("joined"); w.r.n_overflow = range("overflow", 0, 100); w.r.setup(); ensure(nresize == 2, "room for values and sites"); for (size_t i = 0; i < nresize; i++) ensure(resized[i] == w.V, "room for all sites of the node"); ensure((w.r.current_index == 0) & (w.r.previous_site == SIZE_MAX) & (w.r.n_overflow == 0) & !w.r.joined, "a new selection is empty"); cover("end");
}
#define ST "stubs=rsites+rvalues"
#else
static void select_(bool val) {
    L.mynode.volume = range("volume", 1, 6); lattice.set_lattice_pointer(&L); auto &r = *new (malloc(sizeof(SiteValueSelect<double>))) SiteValueSelect<double>(); r.no_join(); const size_t lim = range("limit", 0, 7); r.max_size(lim);
    for (int loop = 0; loop < 2; loop++) {
        std::vector<std::pair<size_t, double>> want; r.setup();
        for (unsigned s = 0; s < L.mynode.volume; s++) { const int times = range("times", 0, 2); for (int t = 0; t < times; t++) { const double x = any<double>("value"); if (val) r.select_site_value(SiteIndex(s + 3), x); else r.SiteSelect::select_site(SiteIndex(s + 3)); if (t == 0) want.push_back({s + 3, x}); else want.back().second = x; } }
        r.endloop_action(); const size_t n = std::min(want.size(), lim); ensure(r.size() == n, "collected sites up to the limit"); ensure(r.overflow() == want.size() - n, "number of sites over the limit"); ensure(r.values.size() == n, "values are cut with the sites");
        for (size_t i = 0; i < n; i++) { ensure(r.site_index(i).value == want[i].first, "the site is stored"); if (val) eq(r.value(i), want[i].second, "the value is stored with its site"); }
    }
}
static void select_first() { select_(true); }
static void endloop(bool v) { select_(v); }
static void setup_() { select_(true); }
#define ST ""
#endif
PROOF(select_site, ST) { select_(false); }
PROOF(select_value, ST) { select_(true); }
PROOF(select_first_site, ST) { select_first(); }
PROOF(end_of_loop, ST) { endloop(false); }
PROOF(end_of_loop_values, ST) { endloop(true); }
PROOF(start_of_loop, ST) { setup_(); }
